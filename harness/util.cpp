// C29: path splines.  C30: numerical derivatives and helpers.
#include "common.hpp"
#include <BSMPT/bounce_solution/action_calculation.h>
#include <BSMPT/utility/NumericalDerivatives.h>
#include <BSMPT/utility/const_velocity_spline.h>
#include <BSMPT/utility/utility.h>
#include <fstream>
#include <gsl/gsl_errno.h>
#include <gsl/gsl_integration.h>
#include <gsl/gsl_sf.h>

using namespace pbt;
using D  = std::vector<double>;
using DD = std::vector<D>;

// ---------------------------------------------------------------- reference cubic spline
// kind of boundary: 1 first derivative, 2 second derivative, 3 not-a-knot
struct RefSpline
{
  D x, y, m; // m: second derivatives at the knots
  void build(const D &X, const D &Y, int lk, double lv, int rk, double rv)
  {
    x = X, y = Y;
    int n = x.size();
    Eigen::MatrixXd A = Eigen::MatrixXd::Zero(n, n);
    Eigen::VectorXd b = Eigen::VectorXd::Zero(n);
    auto h = [&](int i) { return x[i + 1] - x[i]; };
    auto s = [&](int i) { return (y[i + 1] - y[i]) / h(i); };
    for (int i = 1; i < n - 1; i++)
    {
      double f = 6 / (h(i - 1) + h(i)); // scaled rows keep the system well conditioned
      A(i, i - 1) = h(i - 1) / 6 * f;
      A(i, i)     = (h(i - 1) + h(i)) / 3 * f;
      A(i, i + 1) = h(i) / 6 * f;
      b(i)        = (s(i) - s(i - 1)) * f;
    }
    if (lk == 1)
    { // S'(x0) = s0 - h0 (2 m0 + m1) / 6
      A(0, 0) = 2, A(0, 1) = 1;
      b(0) = 6 / h(0) * (s(0) - lv);
    }
    else if (lk == 2)
      A(0, 0) = 1, b(0) = lv;
    else
    {
      double t = h(0) + h(1);
      A(0, 0) = h(1) / t, A(0, 1) = -1, A(0, 2) = h(0) / t;
    }
    if (rk == 1)
    {
      A(n - 1, n - 1) = 2, A(n - 1, n - 2) = 1;
      b(n - 1) = 6 / h(n - 2) * (rv - s(n - 2));
    }
    else if (rk == 2)
      A(n - 1, n - 1) = 1, b(n - 1) = rv;
    else
    {
      double t = h(n - 3) + h(n - 2);
      A(n - 1, n - 3) = h(n - 2) / t, A(n - 1, n - 2) = -1, A(n - 1, n - 1) = h(n - 3) / t;
    }
    Eigen::VectorXd r = A.fullPivLu().solve(b);
    m.assign(r.data(), r.data() + n);
  }
  double at(double t, int d = 0) const
  {
    int n = x.size(), i = std::upper_bound(x.begin(), x.end(), t) - x.begin() - 1;
    i        = std::max(0, std::min(n - 2, i));
    double h = x[i + 1] - x[i], a = (x[i + 1] - t) / h, b = (t - x[i]) / h;
    if (d == 0) return a * y[i] + b * y[i + 1] + ((a * a * a - a) * m[i] + (b * b * b - b) * m[i + 1]) * h * h / 6;
    if (d == 1) return (y[i + 1] - y[i]) / h + (-(3 * a * a - 1) * m[i] + (3 * b * b - 1) * m[i + 1]) * h / 6;
    if (d == 2) return a * m[i] + b * m[i + 1];
    return (m[i + 1] - m[i]) / h;
  }
};
// the path a user asks for: every coordinate a cubic spline of the polygon length
struct RefPath
{
  D t;
  std::vector<RefSpline> c;
  DD pts;
  double L = 0, total = 0;
  D pos; // arc length at the knots
  explicit RefPath(const DD &p)
  {
    pts     = p;
    int dim = p[0].size();
    if (p.size() == 2)
    {
      D a(dim), b(dim);
      for (int i = 0; i < dim; i++)
        a[i] = (2 * p[0][i] + p[1][i]) / 3, b[i] = (p[0][i] + 2 * p[1][i]) / 3;
      pts = {p[0], a, b, p[1]};
    }
    t = {0};
    for (size_t k = 1; k < pts.size(); k++)
    {
      double d = 0;
      for (int i = 0; i < dim; i++)
        d += std::pow(pts[k][i] - pts[k - 1][i], 2);
      t.push_back(t.back() + std::sqrt(d));
    }
    total    = t.back();
    int kind = pts.size() == 3 ? 2 : 3;
    c.resize(dim);
    for (int i = 0; i < dim; i++)
    {
      D y;
      for (auto &q : pts)
        y.push_back(q[i]);
      c[i].build(t, y, kind, 0, kind, 0);
    }
    pos = {0};
    for (size_t k = 1; k < pts.size(); k++)
      pos.push_back(pos.back() + arc(t[k - 1], t[k]));
    L = pos.back();
  }
  double speed(double x) const
  {
    double s = 0;
    for (auto &q : c)
      s += std::pow(q.at(x, 1), 2);
    return std::sqrt(s);
  }
  double arc(double a, double b) const
  { // composite Gauss-Legendre (5 points)
    static const double X[] = {0, 0.5384693101056831, 0.9061798459386640}, W[] = {0.5688888888888889, 0.4786286704993665, 0.2369268850561891};
    double r = 0;
    int N    = 200;
    for (int k = 0; k < N; k++)
    {
      double lo = a + (b - a) * k / N, h = (b - a) / N / 2, m = lo + h;
      r += h * (W[0] * speed(m) + W[1] * (speed(m - h * X[1]) + speed(m + h * X[1])) +
                W[2] * (speed(m - h * X[2]) + speed(m + h * X[2])));
    }
    return r;
  }
  double minSpeed() const
  {
    double r = 1e100;
    for (int k = 0; k <= 2000; k++)
      r = std::min(r, speed(total * k / 2000));
    return r;
  }
  double arcAt(double x) const
  {
    size_t k = std::upper_bound(t.begin(), t.end(), x) - t.begin();
    k        = std::max<size_t>(1, std::min(t.size() - 1, k));
    return pos[k - 1] + arc(t[k - 1], x);
  }
};
static double norm(const D &a)
{
  double r = 0;
  for (double v : a)
    r += v * v;
  return std::sqrt(r);
}
static D sub(const D &a, const D &b)
{
  D r = a;
  for (size_t i = 0; i < r.size(); i++)
    r[i] -= b[i];
  return r;
}
static std::string str(const D &v)
{
  std::ostringstream o;
  o.precision(12);
  for (size_t i = 0; i < v.size(); i++)
    o << (i ? " " : "") << v[i];
  return o.str();
}
// a list of distinct consecutive points; style 0 wild, 1 gentle arc, 2 random walk, 3 line
static DD genPoints(Src &s, int dim, int n, double scale)
{
  DD p;
  int style = s.below(4);
  D a = s.vec(dim, 1), b = s.vec(dim, 1), c = s.vec(dim, 0.3);
  double nb = norm(b);
  if (nb < 1e-2) b[0] += 1, nb = norm(b);
  double t = 0;
  D prev(dim, 0.0);
  for (int k = 0; k < n; k++)
  {
    D q(dim);
    t += s.real(0.2, 1);
    for (int i = 0; i < dim; i++)
    {
      if (style == 0) q[i] = a[i] + s.sym(1);
      if (style == 1) q[i] = a[i] + b[i] / nb * t / n + c[i] * std::sin(2 * t / n + i);
      if (style == 2) q[i] = prev[i] + b[i] / nb * 0.3 + s.sym(0.3);
      if (style == 3) q[i] = a[i] + b[i] * t;
    }
    if (k && norm(sub(q, prev)) < 1e-3) q[s.below(dim)] += 0.1;
    if (k && norm(sub(q, prev)) < 1e-3) q[0] += 0.2;
    p.push_back(q);
    prev = q;
  }
  for (auto &q : p)
    for (auto &v : q)
      v *= scale;
  return p;
}
static void describe(Ctx &c, const DD &p)
{
  for (auto &q : p)
    c.add("point", str(q));
}

// compare a cvspline with the reference path through the given points
static void comparePath(Src &s, Ctx &c, cvspline &sp, const DD &pts, const std::string &tag, int probes = 12)
{
  RefPath R(pts);
  double tol = 3e-6; // L is stored in single precision
  size_t n   = R.pts.size();
  c.check((size_t)sp.num_points == n && sp.phipath.size() == n && sp.vev_position.size() == n,
          tag + ": number of knots", tag);
  for (size_t k = 0; k < n; k++)
    c.check(norm(sub(sp.phipath[k], R.pts[k])) <= 1e-12 * (norm(R.pts[k]) + R.total), tag + ": order of the knots", tag);
  c.check(std::abs(sp.linL - R.total) <= 1e-6 * R.total, tag + ": polygon length", tag);
  double ms = R.minSpeed();
  c.check(std::isfinite((double)sp.L), tag + ": length is not finite", tag);
  c.close(sp.L, R.L, 2e-5, 0, tag + ": length of the path", tag);
  for (size_t k = 1; k < n; k++)
    c.check(sp.vev_position[k] > sp.vev_position[k - 1], tag + ": positions increase", tag);
  if (ms < 0.2)
  {
    c.label("cusp");
    return;
  }
  c.nontrivial();
  c.close(sp.L, R.L, 1e-6, 0, tag + ": length of the path", tag);
  for (size_t k = 0; k < n; k++)
  {
    c.close(sp.vev_position[k], R.pos[k], 0, tol * R.L, tag + ": position of a knot", tag);
    c.check(norm(sub(sp(sp.vev_position[k]), R.pts[k])) <= tol * R.L, tag + ": passes through its points", tag);
  }
  c.check(norm(sub(sp(0), R.pts.front())) <= tol * R.L && norm(sub(sp(sp.L), R.pts.back())) <= tol * R.L,
          tag + ": end points", tag);
  double hmin = 1e100;
  for (size_t k = 1; k < n; k++)
    hmin = std::min(hmin, R.t[k] - R.t[k - 1]);
  for (int k = 0; k < probes; k++)
  {
    double x = R.total * s.unit(), l = R.arcAt(x);
    D want, d1, d2;
    double v = R.speed(x), va = 0;
    for (auto &q : R.c)
      want.push_back(q.at(x)), va += q.at(x, 1) * q.at(x, 2) / v;
    for (auto &q : R.c)
      d1.push_back(q.at(x, 1) / v), d2.push_back((q.at(x, 2) - q.at(x, 1) / v * va) / (v * v));
    D g = sp(l), g1 = sp.dl(l), g2 = sp.d2l(l);
    double curv = 0;
    for (int j = -3; j <= 3; j++)
    {
      double xx = std::min(R.total, std::max(0., x + j * 1e-4 * R.total)), a = 0;
      for (auto &q : R.c)
        a += std::pow(q.at(xx, 2), 2);
      curv = std::max(curv, std::sqrt(a));
    }
    auto show = [&] { return " at l = " + std::to_string(l / R.L) + " L: "; };
    c.check(norm(sub(g, want)) <= tol * R.L, tag + ": value of the path" + show() + str(g) + " / " + str(want), tag);
    c.check(std::abs(norm(g1) - 1) <= 1e-9, tag + ": unit speed" + show() + std::to_string(norm(g1)), tag);
    c.check(norm(sub(g1, d1)) <= (1e-6 + 6 * tol * R.L * curv / v), tag + ": tangent" + show() + str(g1) + " / " + str(d1), tag);
    // second derivative jumps in slope at knots; the tabulated length has a step of L/10000
    double jerk = 0;
    for (auto &q : R.c)
      for (int j = -1; j <= 1; j++)
        jerk = std::max(jerk, std::abs(q.at(std::min(R.total, std::max(0., x + j * 2e-4 * R.total)), 3)));
    double slack = 1e-3 / R.L + 1e-3 * (curv + norm(d2)) + 6e-4 * R.total * (jerk + curv * curv / v) / v;
    bool end     = x < 0.002 * R.total || x > 0.998 * R.total; // natural boundary of the length table
    c.check(end || norm(sub(g2, d2)) <= slack / (v * v) * 2, tag + ": second derivative" + show() + str(g2) + " / " + str(d2), tag);
    D raw = sp.deriv(1, x), raw2 = sp.deriv(2, x);
    D w1, w2;
    for (auto &q : R.c)
      w1.push_back(q.at(x, 1)), w2.push_back(q.at(x, 2));
    c.check(norm(sub(raw, w1)) <= 1e-8 + 1e-6 * curv * R.total * 1e-3, tag + ": derivative in the polygon length" + show(), tag);
    (void)raw2;
    c.close(sp.l_to_x(sp.x_to_l(x)), x, 0, tol * R.total, tag + ": lengths are inverse to each other", tag);
    c.close(sp.x_to_l(x), l, 0, tol * R.L, tag + ": arc length", tag);
  }
}

static void c29_path(Src &s, Ctx &c)
{
  int dim = s.integer(1, 6), n = s.integer(2, 12);
  double scale = s.logreal(1e-2, 1e4);
  DD p         = genPoints(s, dim, n, scale);
  describe(c, p);
  c.label(n == 2 ? "two points" : n == 3 ? "three points" : "many points");
  if (s.chance(20))
  {
    int ni = s.integer(2000, 8000);
    cvspline sp(p, ni);
    RefPath R(p);
    c.check(std::abs(sp.L - R.L) <= 1e-4 * R.L, "length with a chosen number of steps");
    if (R.minSpeed() > 0.3)
      for (int k = 0; k <= 4; k++)
      {
        double x = R.total * k / 4, l = R.arcAt(x);
        D w, g = sp(l);
        for (auto &q : R.c)
          w.push_back(q.at(x));
        c.check(norm(sub(g, w)) <= 1e-4 * R.L, "path with a chosen number of steps");
        c.nontrivial();
      }
    return;
  }
  cvspline sp(p);
  comparePath(s, c, sp, p, "path");
}

// rotation, translation, scaling and reversal of the points move the path with them
static void c29_equivariance(Src &s, Ctx &c)
{
  int dim = s.integer(1, 5), n = s.integer(2, 9);
  DD p    = genPoints(s, dim, n, 1);
  if (RefPath(p).minSpeed() < 0.25) return;
  c.nontrivial();
  describe(c, p);
  cvspline a(p);
  DD q = p;
  int what = s.below(4);
  D shift = s.vec(dim, 5);
  double f = s.logreal(1e-2, 1e3), ang = s.real(-3, 3);
  int i0 = s.below(dim), i1 = s.below(dim);
  auto map = [&](D v) {
    if (what == 0)
      for (int i = 0; i < dim; i++)
        v[i] += shift[i];
    if (what == 1)
      for (auto &x : v)
        x *= f;
    if (what == 2 && i0 != i1)
    {
      double x = v[i0], y = v[i1];
      v[i0] = std::cos(ang) * x - std::sin(ang) * y, v[i1] = std::sin(ang) * x + std::cos(ang) * y;
    }
    return v;
  };
  for (auto &v : q)
    v = map(v);
  if (what == 3) std::reverse(q.begin(), q.end());
  c.label(what == 0 ? "translate" : what == 1 ? "scale" : what == 2 ? "rotate" : "reverse");
  cvspline b(q);
  double g = what == 1 ? f : 1;
  c.close(b.L, g * a.L, 2e-6, 0, "length under a symmetry");
  for (int k = 0; k < 10; k++)
  {
    double u = s.unit(), l = u * a.L, l2 = (what == 3 ? 1 - u : u) * b.L;
    D want = map(a(l));
    c.check(norm(sub(b(l2), want)) <= 1e-5 * b.L, "path under a symmetry " + str(b(l2)) + " / " + str(want));
  }
}

// exactly known curves
static void c29_exact(Src &s, Ctx &c)
{
  int dim = s.integer(2, 5);
  double r = s.logreal(0.1, 500), span = s.real(0.5, 5);
  int n = s.integer(25, 50), i0 = s.below(dim), i1 = (i0 + 1 + s.below(dim - 1)) % dim;
  D o = s.vec(dim, r);
  c.add("radius", std::to_string(r));
  c.add("angle", std::to_string(span));
  c.nontrivial();
  DD p;
  for (int k = 0; k < n; k++)
  {
    D v = o;
    v[i0] += r * std::cos(span * k / (n - 1)), v[i1] += r * std::sin(span * k / (n - 1));
    p.push_back(v);
  }
  cvspline sp(p);
  c.close(sp.L, r * span, 1e-4, 0, "length of an arc");
  for (int k = 0; k < 10; k++)
  {
    double u = s.real(0.1, 0.9), l = u * sp.L, a = u * span;
    D v = o, t(dim, 0.0), cu(dim, 0.0);
    v[i0] += r * std::cos(a), v[i1] += r * std::sin(a);
    t[i0] = -std::sin(a), t[i1] = std::cos(a);
    cu[i0] = -std::cos(a) / r, cu[i1] = -std::sin(a) / r;
    c.check(norm(sub(sp(l), v)) <= 3e-4 * r, "point on an arc");
    c.check(norm(sub(sp.dl(l), t)) <= 2e-3, "tangent of an arc");
    c.check(norm(sub(sp.d2l(l), cu)) <= 0.05 / r, "curvature of an arc");
  }
}

// histories of added points
static void c29_history(Src &s, Ctx &c)
{
  int dim = s.integer(1, 4), n = s.integer(2, 6);
  double scale = s.logreal(0.1, 500);
  DD p    = genPoints(s, dim, n, scale);
  describe(c, p);
  cvspline sp(p);
  DD ref = RefPath(p).pts; // two points become four
  D pos(sp.vev_position.begin(), sp.vev_position.end());
  bool dirty = false, interior = false;
  int ops = s.integer(1, 8);
  for (int k = 0; k < ops; k++)
  {
    int what = s.below(8);
    if (what == 7)
    {
      sp.initialize();
      pos   = D(sp.vev_position.begin(), sp.vev_position.end());
      dirty = false;
      c.add("op", "initialize");
      continue;
    }
    double at;
    bool compile = s.chance(50);
    if (what == 0)
      at = -s.real(0.01, 2) * scale;
    else if (what == 1)
      at = pos.back() * (1 + s.real(0.01, 1));
    else if (what == 2)
      at = pos[s.below(pos.size())];
    else
      at = pos.back() * s.unit();
    // a new point off the straight line between its neighbours, or far out at the ends
    size_t i = std::lower_bound(pos.begin(), pos.end(), at) - pos.begin();
    bool dup = i < pos.size() && pos[i] == at;
    if (!dup && ((i < pos.size() && pos[i] - at < 1e-6 * scale) || (i > 0 && at - pos[i - 1] < 1e-6 * scale))) continue;
    D v(dim);
    for (int d = 0; d < dim; d++)
    {
      double a = i > 0 ? ref[i - 1][d] : ref[0][d] - 0.4 * scale, b = i < ref.size() ? ref[i][d] : ref.back()[d] + 0.3 * scale;
      v[d] = a + (b - a) * s.real(0.2, 0.8) + s.sym(0.05) * scale;
    }
    auto near = [&](const D &q) { return norm(sub(q, v)) < 1e-3 * scale; };
    if (!dup && ((i > 0 && near(ref[i - 1])) || (i < ref.size() && near(ref[i])))) continue;
    c.add("op", "add at " + std::to_string(at) + " of " + std::to_string(pos.back()) + " point " + str(v) + (compile ? " compile" : ""));
    if (i > 0 && i < pos.size()) interior = true;
    sp.add_point(at, v, compile);
    if (!dup)
    {
      ref.insert(ref.begin() + i, v);
      pos.insert(pos.begin() + i, at);
      dirty = true;
      if (compile)
      {
        pos   = D(sp.vev_position.begin(), sp.vev_position.end());
        dirty = false;
      }
    }
    else
      c.label("existing position");
    c.check(sp.phipath.size() == ref.size(), "number of points after adding one", "add");
    for (size_t j = 0; j < ref.size(); j++)
      c.check(norm(sub(sp.phipath[j], ref[j])) <= 1e-12 * scale * 100, "order of the points after adding one", "add");
    c.check(sp.vev_position.size() == ref.size(), "number of positions after adding a point", "add");
  }
  if (interior) c.label("interior");
  if (dirty) sp.initialize();
  comparePath(s, c, sp, ref, "history", 5);
  if (s.chance(30))
  {
    std::string f = scratch_dir() + "/path.tsv";
    bool header   = s.boolean();
    sp.save_path(f, header);
    std::ifstream in(f);
    std::string line;
    if (header) std::getline(in, line);
    for (auto &q : ref)
    {
      c.check((bool)std::getline(in, line), "saved path has a line per point", "save");
      std::istringstream is(line);
      for (double v : q)
      {
        double w;
        c.check((bool)(is >> w), "saved path has a column per field", "save");
        c.close(w, v, 1e-5, 1e-12 * scale, "saved path", "save");
      }
    }
    c.check(!std::getline(in, line), "saved path has no further lines", "save");
    c.label("saved");
  }
}

static void c29_tk(Src &s, Ctx &c)
{
  int n = s.integer(4, 14), type = s.below(4), lk = s.integer(1, 3), rk = s.integer(1, 3);
  double lv = lk == 3 ? 0 : s.sym(2), rv = rk == 3 ? 0 : s.sym(2);
  if (type != 1 && n > 4 && s.chance(10) && lk != 3 && rk != 3) n = 3;
  double xs = s.logreal(1e-3, 1e3), ys = s.logreal(1e-3, 1e6);
  lv *= ys, rv *= ys;
  lv /= lk == 1 ? xs : xs * xs;
  rv /= rk == 1 ? xs : xs * xs;
  D x = {s.sym(3) * xs}, y = {s.sym(1) * ys};
  for (int i = 1; i < n; i++)
  {
    x.push_back(x.back() + s.real(0.1, 1) * xs);
    y.push_back(s.chance(70) ? s.sym(1) * ys : y.back() + s.real(-0.2, 1) * ys);
  }
  c.add("x", str(x));
  c.add("y", str(y));
  c.add("type", std::to_string(type) + " left " + std::to_string(lk) + " " + std::to_string(lv) + " right " + std::to_string(rk) + " " + std::to_string(rv));
  c.nontrivial();
  auto bd  = [](int k) { return k == 1 ? tk::spline::first_deriv : k == 2 ? tk::spline::second_deriv : tk::spline::not_a_knot; };
  auto typ = type == 0 ? tk::spline::linear : type == 1 || type == 3 ? tk::spline::cspline : tk::spline::cspline_hermite;
  bool mono = s.chance(25);
  tk::spline sp;
  if (s.boolean())
    sp = tk::spline(x, y, typ, mono, bd(lk), lv, bd(rk), rv);
  else
  {
    sp.set_boundary(bd(lk), lv, bd(rk), rv);
    sp.set_points(x, y, typ);
    if (mono) sp.make_monotonic();
  }
  double hx = xs, tolY = 1e-9 * ys;
  for (int i = 0; i < n; i++)
    c.close(sp(x[i]), y[i], 0, tolY, "spline passes through its points");
  auto probe = [&] { return x[0] + (x[n - 1] - x[0]) * s.unit(); };
  // continuity at the inner knots (C1 always except linear, C2 for cubic splines not made monotonic)
  for (int i = 1; i < n - 1; i++)
  {
    double e = 1e-9 * xs;
    c.close(sp(x[i] - e), y[i], 0, 1e-6 * ys, "spline is continuous");
    if (type != 0) c.close(sp.deriv(1, x[i] - e), sp.deriv(1, x[i] + e), 0, 1e-5 * ys / hx, "derivative is continuous");
    if ((type == 1 || type == 3) && !mono)
      c.close(sp.deriv(2, x[i] - e), sp.deriv(2, x[i] + e), 0, 1e-4 * ys / hx / hx, "second derivative is continuous");
  }
  if ((type == 1 || type == 3) && !mono)
  {
    RefSpline R;
    R.build(x, y, lk, lv, rk, rv);
    double amp = ys;
    for (double m : R.m)
      amp = std::max(amp, std::abs(m) * xs * xs);
    for (int k = 0; k < 8; k++)
    {
      double t = probe();
      c.close(sp(t), R.at(t), 0, 1e-9 * amp, "value of the cubic spline");
      c.close(sp.deriv(1, t), R.at(t, 1), 0, 1e-8 * amp / xs, "derivative of the cubic spline");
      c.close(sp.deriv(2, t), R.at(t, 2), 0, 1e-7 * amp / xs / xs, "second derivative of the cubic spline");
      c.close(sp.deriv(3, t), R.at(t, 3), 0, 1e-6 * amp / xs / xs / xs, "third derivative of the cubic spline");
    }
    // extrapolation: quadratic continuation, linear for a given first derivative
    double u = s.real(0.01, 2) * xs, a = x[0] - u, b = x[n - 1] + u;
    double c0 = lk == 1 ? 0 : R.at(x[0], 2) / 2, cn = rk == 1 ? 0 : R.at(x[n - 1], 2) / 2;
    c.close(sp(a), y[0] - R.at(x[0], 1) * u + c0 * u * u, 0, 1e-8 * amp, "extrapolation to the left");
    c.close(sp(b), y[n - 1] + R.at(x[n - 1], 1) * u + cn * u * u, 0, 1e-8 * amp, "extrapolation to the right");
    c.close(sp.deriv(1, a), R.at(x[0], 1) - 2 * c0 * u, 0, 1e-7 * amp / xs, "derivative of the left extrapolation");
    c.close(sp.deriv(1, b), R.at(x[n - 1], 1) + 2 * cn * u, 0, 1e-7 * amp / xs, "derivative of the right extrapolation");
    if (lk == 1) c.close(sp.deriv(1, x[0]), lv, 1e-7, 1e-8 * amp / xs, "left first derivative");
    if (lk == 2) c.close(sp.deriv(2, x[0]), lv, 1e-7, 1e-8 * amp / xs / xs, "left second derivative");
    if (rk == 1) c.close(sp.deriv(1, x[n - 1]), rv, 1e-7, 1e-8 * amp / xs, "right first derivative");
    if (rk == 2) c.close(sp.deriv(2, x[n - 1] * (1 + 0)), rv, 1e-7, 1e-7 * amp / xs / xs, "right second derivative");
    c.label("cubic");
  }
  if (type == 0)
  {
    for (int k = 0; k < 6; k++)
    {
      double t = probe();
      int i    = std::max(0, std::min<int>(n - 2, std::upper_bound(x.begin(), x.end(), t) - x.begin() - 1));
      double w = (t - x[i]) / (x[i + 1] - x[i]);
      if (!mono) c.close(sp(t), y[i] * (1 - w) + y[i + 1] * w, 0, tolY, "linear interpolation");
    }
    c.label("linear");
  }
  if (type == 2)
  {
    if (!mono)
      for (int i = 1; i < n - 1; i++)
      { // slope of the parabola through three neighbours
        double h0 = x[i] - x[i - 1], h1 = x[i + 1] - x[i];
        double w = ((y[i + 1] - y[i]) / h1 * h0 + (y[i] - y[i - 1]) / h0 * h1) / (h0 + h1);
        c.close(sp.deriv(1, x[i]), w, 1e-7, 1e-7 * ys / xs, "slope of the Hermite spline");
      }
    c.label("hermite");
  }
  if (mono && type != 0)
  { // monotonic data stay monotonic
    for (int i = 0; i < n - 1; i++)
    {
      int im = std::max(0, i - 1), ip = std::min(n - 1, i + 2);
      bool up = y[im] <= y[i] && y[i] <= y[i + 1] && y[i + 1] <= y[ip], dn = y[im] >= y[i] && y[i] >= y[i + 1] && y[i + 1] >= y[ip];
      if (!up && !dn) continue;
      double last = y[i], sg = up ? 1 : -1;
      for (int k = 1; k <= 20; k++)
      {
        double v = sp(x[i] + (x[i + 1] - x[i]) * k / 20.0 * (1 - 1e-12));
        c.check((v - last) * sg >= -1e-7 * ys, "monotonic data give a monotonic spline");
        last = v;
      }
      c.label("monotonic stretch");
    }
  }
  // solve: every root is one, every sign change has one
  double level = s.sym(1.2) * ys;
  D roots      = sp.solve(level, true);
  for (double r : roots)
  {
    c.check(r >= x[0] - 1e-9 * xs && r <= x[n - 1] + 1e-9 * xs, "root inside the range");
    double slope = std::abs(sp.deriv(1, r)), curv = std::abs(sp.deriv(2, r));
    c.check(std::abs(sp(r) - level) <= 1e-6 * ys + 1e-6 * (slope + curv * xs) * xs, "solve returns roots");
  }
  for (int i = 0; i < n - 1; i++)
    for (int k = 0; k < 10; k++)
    {
      double a = x[i] + (x[i + 1] - x[i]) * k / 10, b = x[i] + (x[i + 1] - x[i]) * (k + 1) / 10;
      double fa = sp(a) - level, fb = sp(b) - level;
      if (std::abs(fa) < 1e-3 * ys || std::abs(fb) < 1e-3 * ys || fa * fb > 0) continue;
      bool ok = false;
      for (double r : roots)
        ok = ok || (r >= a - 1e-6 * xs && r <= b + 1e-6 * xs);
      c.check(ok, "solve finds every crossing");
    }
}

// ---------------------------------------------------------------- C30
struct Poly
{ // sum of c * prod x_i^e_i
  std::vector<std::pair<double, std::vector<int>>> t;
  double val(const D &x) const
  {
    double r = 0;
    for (auto &[c, e] : t)
    {
      double p = c;
      for (size_t i = 0; i < x.size(); i++)
        p *= std::pow(x[i], e[i]);
      r += p;
    }
    return r;
  }
  Poly diff(int k) const
  {
    Poly r;
    for (auto [c, e] : t)
      if (e[k])
      {
        c *= e[k];
        e[k]--;
        r.t.push_back({c, e});
      }
    return r;
  }
  double absval(const D &x) const
  {
    double r = 0;
    for (auto &[c, e] : t)
    {
      double p = std::abs(c);
      for (size_t i = 0; i < x.size(); i++)
        p *= std::pow(std::abs(x[i]), e[i]);
      r += p;
    }
    return r;
  }
};
static Poly genPoly(Src &s, int dim, int deg)
{
  Poly p;
  int n = s.integer(1, 8);
  for (int k = 0; k < n; k++)
  {
    std::vector<int> e(dim, 0);
    int d = s.integer(0, deg);
    for (int j = 0; j < d; j++)
      e[s.below(dim)]++;
    p.t.push_back({s.sym(2), e});
  }
  return p;
}
static void c30_deriv(Src &s, Ctx &c)
{
  int dim = s.integer(1, 7), deg = s.integer(1, 6);
  Poly p = genPoly(s, dim, deg);
  D x    = s.vec(dim, 3);
  // either a plain polynomial or a smooth function of one
  int kind = s.below(3);
  double eps = s.logreal(1e-4, 0.2);
  c.add("x", str(x));
  c.add("eps", std::to_string(eps));
  c.add("degree", std::to_string(deg));
  c.nontrivial();
  int calls = 0;
  D reach   = x;
  for (auto &v : reach)
    v = std::abs(v) + std::max(4 * eps, 0.1);
  const double S = std::max(50., p.absval(reach)); // keeps the phase of the sine below one
  std::function<double(D)> f = [&](D v) {
    calls++;
    double q = p.val(v);
    return kind == 0 ? q : kind == 1 ? std::sin(q / S) : std::exp(-norm(v) * norm(v) / 40) + q / 50;
  };
  auto ex = [&](const D &v, int i) { // exact first derivative
    double d = p.diff(i).val(v), q = p.val(v);
    return kind == 0 ? d : kind == 1 ? std::cos(q / S) * d / S : -v[i] / 20 * std::exp(-norm(v) * norm(v) / 40) + d / 50;
  };
  auto ex2 = [&](const D &v, int i, int j) {
    double d = p.diff(i).diff(j).val(v), q = p.val(v), a = p.diff(i).val(v), b = p.diff(j).val(v);
    double g = std::exp(-norm(v) * norm(v) / 40);
    return kind == 0 ? d : kind == 1 ? std::cos(q / S) * d / S - std::sin(q / S) * a * b / S / S
                                     : (v[i] * v[j] / 400 - (i == j ? 1 / 20. : 0)) * g + d / 50;
  };
  // error bound: rounding plus the truncation estimated from the exact derivative itself
  D big = x;
  for (auto &v : big)
    v = std::abs(v) + 2 * eps;
  double mag = p.absval(big) + 1;
  auto g = BSMPT::NablaNumerical(x, f, eps);
  c.check(g.size() == (size_t)dim, "size of the numerical gradient");
  for (int i = 0; i < dim; i++)
  {
    // fourth difference of the exact derivative ~ h^4 f^(5): error of the formula is h^4 f^(5) / 30
    double tr = 0;
    if (kind == 0 && deg <= 4)
      tr = 0;
    else
    {
      static const int B[5] = {1, -4, 6, -4, 1};
      double h = std::max(eps, 1e-2), dd = 0, worst = 0;
      for (int o = -2; o <= 2; o++)
      {
        dd = 0;
        for (int j = 0; j < 5; j++)
        {
          D v = x;
          v[i] += (j - 2 + o * 0.5) * h;
          dd += B[j] * ex(v, i);
        }
        worst = std::max(worst, std::abs(dd));
      }
      tr = worst * std::pow(eps / h, 4) / 10;
      // a function that changes a lot over the stencil: only the bound by the variation of the derivative
      double var = 0, d0 = ex(x, i);
      for (int j = -40; j <= 40; j++)
      {
        D v = x;
        v[i] += 2 * h * j / 40;
        var = std::max(var, std::abs(ex(v, i) - d0));
      }
      if (var > 1.0 * (std::abs(d0) + 1e-3)) tr = std::max(tr, 0.2 * var);
    }
    double tol = 1.5 * tr + 1e-13 * mag / eps + 1e-12;
    c.check(std::abs(g[i] - ex(x, i)) <= tol, "numerical gradient " + std::to_string(g[i]) + " / " + std::to_string(ex(x, i)), "nabla");
  }
  auto H = BSMPT::HessianNumerical(x, f, eps);
  c.check(H.size() == (size_t)dim, "size of the numerical Hessian");
  for (int i = 0; i < dim; i++)
    for (int j = 0; j < dim; j++)
    {
      c.check(H[i][j] == H[j][i], "numerical Hessian is symmetric", "hessian");
      double tr = 0;
      if (!(kind == 0 && deg <= 2))
      { // variation of the exact second derivative over the stencil bounds the error
        for (int a = -2; a <= 2; a++)
          for (int b = -2; b <= 2; b++)
          {
            D v = x, w = x;
            v[i] += a * eps, v[j] += b * eps;
            w[i] -= a * eps, w[j] -= b * eps;
            tr = std::max(tr, std::abs(0.5 * (ex2(v, i, j) + ex2(w, i, j)) - ex2(x, i, j)));
          }
        tr *= 1.5;
      }
      double tol = tr + 3e-15 * mag / eps / eps + 1e-12;
      c.check(std::abs(H[i][j] - ex2(x, i, j)) <= tol,
              "numerical Hessian " + std::to_string(H[i][j]) + " / " + std::to_string(ex2(x, i, j)), "hessian");
    }
}

static void c30_vector(Src &s, Ctx &c)
{
  using namespace BSMPT;
  int n = s.integer(0, 8);
  D a = s.vec(n, 10), b = s.vec(n, 10);
  double k = s.sym(5);
  if (std::abs(k) < 1e-3) k = 1;
  if (n > 1) c.nontrivial();
  c.add("a", str(a));
  D p = a + b, m = a - b, t = k * a, d = a / k;
  c.check(p.size() == a.size() && m.size() == a.size() && t.size() == a.size() && d.size() == a.size(), "sizes", "vector");
  double dot = 0, n2 = 0;
  for (int i = 0; i < n; i++)
  {
    c.check(p[i] == a[i] + b[i] && m[i] == a[i] - b[i] && t[i] == k * a[i] && d[i] == a[i] / k, "element-wise operations", "vector");
    dot += a[i] * b[i];
    n2 += a[i] * a[i];
  }
  c.close(a * b, dot, 1e-12, 1e-10, "dot product", "vector");
  c.close(L2NormVector(a), std::sqrt(n2), 1e-13, 0, "norm", "vector");
  if (n > 0)
  {
    DD M(n);
    for (auto &r : M)
      r = s.vec(n, 3);
    D mv = M * a;
    for (int i = 0; i < n; i++)
    {
      double r = 0;
      for (int j = 0; j < n; j++)
        r += M[i][j] * a[j];
      c.close(mv[i], r, 1e-12, 1e-10, "matrix times vector", "vector");
    }
    int cols = s.integer(1, 6);
    DD A(n);
    for (auto &r : A)
      r = s.vec(cols, 3);
    DD T = Transpose(A);
    c.check(T.size() == (size_t)cols, "rows of a transpose", "vector");
    for (int i = 0; i < n; i++)
      for (int j = 0; j < cols; j++)
        c.check(T[j].size() == (size_t)n && T[j][i] == A[i][j], "transpose", "vector");
    c.check(Transpose(T) == A, "transpose twice", "vector");
    D fl = flatten(A);
    c.check(fl.size() == (size_t)n * cols, "size of a flattened matrix", "vector");
    for (int i = 0; i < n; i++)
      for (int j = 0; j < cols; j++)
        c.check(fl[i * cols + j] == A[i][j], "order of a flattened matrix", "vector");
  }
  // different sizes are refused
  D e = b;
  e.push_back(1);
  auto refused = [&](auto f) {
    try
    {
      f();
    }
    catch (...)
    {
      return true;
    }
    return false;
  };
  c.check(refused([&] { a + e; }) && refused([&] { a - e; }) && refused([&] { a *e; }), "sizes that differ are refused", "vector");
  std::ostringstream o;
  o.precision(17);
  o << a;
  auto parts = split(o.str(), '\t');
  c.check(parts.size() == a.size(), "printed vector has a field per element", "vector");
  for (int i = 0; i < n; i++)
    c.check(std::stod(parts[i]) == a[i], "printed vector", "vector");
  std::string vs = vec_to_string(a);
  auto q         = split(vs, '\t');
  c.check(q.size() == a.size(), "vector as string has a field per element", "vector");
  for (int i = 0; i < n; i++)
    c.close(std::stod(q[i]), a[i], 0, 6e-7, "vector as string", "vector");
}

static std::string genStr(Src &s, int maxLen)
{
  std::string r;
  int n = s.integer(0, maxLen);
  for (int i = 0; i < n; i++)
    r += std::string("abAB-_= \t1.")[s.below(11)];
  return r;
}
static void c30_string(Src &s, Ctx &c)
{
  using namespace BSMPT;
  std::string a = genStr(s, 10), b = s.chance(40) ? a.substr(0, s.below(a.size() + 1)) : s.chance(40) ? a.substr(s.below(a.size() + 1)) : genStr(s, 4);
  c.add("a", a);
  c.add("b", b);
  if (a.size() > 2 && b.size()) c.nontrivial();
  bool pre = b.size() <= a.size(), suf = pre;
  for (size_t i = 0; pre && i < b.size(); i++)
    pre = a[i] == b[i];
  for (size_t i = 0; suf && i < b.size(); i++)
    suf = a[a.size() - b.size() + i] == b[i];
  c.check(StringStartsWith(a, b) == pre, "prefix test", "string");
  c.check(StringEndsWith(a, b) == suf, "suffix test", "string");
  char del = "-_= \t"[s.below(5)];
  auto got = split(a, del);
  std::vector<std::string> want;
  std::string cur;
  for (char ch : a)
    if (ch == del)
      want.push_back(cur), cur.clear();
    else
      cur += ch;
  if (!cur.empty()) want.push_back(cur);
  c.check(got == want, "split", "string");
}

static double li2ref(double x)
{ // real part of the dilogarithm for real argument
  return gsl_sf_dilog(x);
}
static void c30_special(Src &s, Ctx &c)
{
  using namespace BSMPT;
  gsl_set_error_handler_off();
  c.nontrivial();
  int what = s.below(8);
  BounceActionInt B;
  if (what == 0)
  {
    int z    = s.below(4);
    double x = z == 0 ? s.real(-1, 1) : z == 1 ? -s.logreal(1e-6, 1e8) : z == 2 ? 1 - s.logreal(1e-9, 1) : s.pick(std::vector<double>{0., 1., -1., 0.5, -0.5});
    c.add("Li2", std::to_string(x));
    c.close(Li2(x), li2ref(x), 2e-9, 1e-12, "dilogarithm", "li2");
    c.label("Li2");
  }
  else if (what == 1)
  {
    double x = s.chance(50) ? s.sym(20) : s.sym(2);
    c.add("EllipIntSecond", std::to_string(x));
    // integral by composite Gauss-Legendre
    gsl_integration_glfixed_table *t = gsl_integration_glfixed_table_alloc(64);
    gsl_function F;
    F.function = [](double v, void *) { return std::sqrt(1 + 2 * std::sinh(v) * std::sinh(v)); };
    F.params   = nullptr;
    double r   = 0;
    for (int i = 0; i < 20; i++)
      r += gsl_integration_glfixed(&F, x * i / 20, x * (i + 1) / 20, t);
    gsl_integration_glfixed_table_free(t);
    c.close(EllipIntSecond(x), r, 1e-6, 1e-12, "elliptic integral", "elliptic");
    c.close(EllipIntSecond(-x), -EllipIntSecond(x), 1e-6, 1e-12, "elliptic integral is odd", "elliptic");
    c.label("EllipIntSecond");
  }
  else if (what == 2)
  {
    double x = s.logreal(1e-4, 40), al = s.pick(std::vector<double>{0, 0.5, 1, 1.5, 2});
    c.add("BesselI", std::to_string(al) + " " + std::to_string(x));
    c.close(B.BesselI(al, x), gsl_sf_bessel_Inu(al, x), 1e-9, 1e-300, "modified Bessel function", "bessel");
    c.label("BesselI");
  }
  else if (what == 3)
  {
    double x = s.logreal(1e-4, 15);
    c.add("BesselJ", std::to_string(x));
    c.close(B.BesselJ(x), gsl_sf_bessel_J1(x), 1e-9, 1e-15 * std::exp(x), "Bessel function", "bessel");
    c.label("BesselJ");
  }
  else if (what == 4)
  {
    double x = s.sym(20);
    c.add("LogisticFunction", std::to_string(x));
    double want = 1 / (1 + std::exp(-x));
    c.close(B.LogisticFunction(x), want, 1e-12, std::abs(x) >= 10 ? 5e-5 : 0, "logistic function", "logistic");
    c.close(B.LogisticFunction(x) + B.LogisticFunction(-x), 1, 1e-12, 0, "logistic function is symmetric", "logistic");
  }
  else if (what == 5)
  {
    int n = s.integer(0, 12);
    double f = 1;
    for (int i = 2; i <= n; i++)
      f *= i;
    c.add("factorial", std::to_string(n));
    c.check(factorial(n) == f, "factorial", "factorial");
    int k = s.integer(0, 14), m = s.integer(0, 20);
    double r = 1;
    if (k > m)
      r = 0;
    else
      for (int i = 0; i < k; i++)
        r = r * (m - i) / (i + 1);
    c.check(B.nChoosek(m, k) == std::llround(r), "binomial coefficient " + std::to_string(m) + " " + std::to_string(k), "binomial");
  }
  else if (what == 6)
  {
    int n = s.integer(1, 12);
    double x = s.unit(), sum = 0, mean = 0;
    c.add("Bernstein", std::to_string(n) + " " + std::to_string(x));
    for (int k = 0; k <= n; k++)
    {
      double v = B.Bernstein(n, k, x), w = gsl_sf_choose(n, k) * std::pow(x, k) * std::pow(1 - x, n - k);
      c.close(v, w, 1e-12, 1e-300, "Bernstein polynomial", "bernstein");
      sum += v, mean += v * k;
    }
    c.close(sum, 1, 1e-12, 0, "Bernstein polynomials add up to one", "bernstein");
    c.close(mean, n * x, 1e-11, 1e-12, "mean of the Bernstein polynomials", "bernstein");
  }
  else
  { // one Runge-Kutta step for a straight-line force: l'' + alpha l'/rho = k (l - l0)
    double k = s.real(0.1, 2), l0 = s.real(0.1, 1), L = 3;
    // linear force is an exact cubic spline
    D xs, ys;
    for (int i = 0; i <= 20; i++)
      xs.push_back(L * i / 20), ys.push_back(k * (L * i / 20 - l0));
    B.RasterizeddVdl.set_boundary(tk::spline::not_a_knot, 0, tk::spline::not_a_knot, 0);
    B.RasterizeddVdl.set_points(xs, ys);
    B.Alpha     = s.boolean() ? 2 : 3;
    double rho = s.real(1, 5), h = s.real(1e-3, 0.05), l = s.real(0.5, 2), v = s.real(0.05, 0.5);
    auto force = [&](double r, double q, double w) { return k * (q - l0) - B.Alpha * w / r; };
    // reference: many small classical steps
    double r = (float)rho, hh = (double)(float)h / 200, q = l, w = v;
    for (int i = 0; i < 200; i++)
    {
      double a1 = w, b1 = force(r, q, w), a2 = w + hh / 2 * b1, b2 = force(r + hh / 2, q + hh / 2 * a1, w + hh / 2 * b1);
      double a3 = w + hh / 2 * b2, b3 = force(r + hh / 2, q + hh / 2 * a2, w + hh / 2 * b2), a4 = w + hh * b3, b4 = force(r + hh, q + hh * a3, w + hh * b3);
      q += hh / 6 * (a1 + 2 * a2 + 2 * a3 + a4), w += hh / 6 * (b1 + 2 * b2 + 2 * b3 + b4), r += hh;
    }
    D out(2), err(2);
    B.RK5_step({l, v}, {v, force((float)rho, l, v)}, 2, rho, h, out, err);
    c.add("RK5 step", str({rho, h, l, v, k, l0}));
    double tol = 1e-8 + 2 * std::pow(h, 6);
    c.close(out[0], q, 0, tol, "position after a Runge-Kutta step", "rk5");
    c.close(out[1], w, 0, tol, "speed after a Runge-Kutta step", "rk5");
    c.check(std::abs(err[0]) <= 1e-6 && std::abs(err[1]) <= 1e-6, "error estimate of a Runge-Kutta step", "rk5");
    c.label("RK5");
  }
}

int main(int argc, char **argv)
{
  std::vector<Property> P;
  P.push_back({"C29",
               {{"path", 6000, 100000, c29_path, "the path has no near-cusp (speed in the polygon length stays above 0.2)"},
                {"symmetry", 3000, 60000, c29_equivariance, "the path has no near-cusp"},
                {"exact", 1500, 30000, c29_exact, "every case"},
                {"history", 5000, 100000, c29_history, "the final path has no near-cusp", 150, true},
                {"spline", 40000, 1500000, c29_tk, "every case"}},
               {"consecutive points differ", "path length stored in single precision: agreement to 3e-6 of the length"}});
  P.push_back({"C30",
               {{"derivatives", 15000, 300000, c30_deriv, "every case"},
                {"vectors", 30000, 1000000, c30_vector, "two or more elements"},
                {"strings", 60000, 2000000, c30_string, "both strings not empty"},
                {"special", 40000, 1500000, c30_special, "every case"}},
               {"the dilogarithm is used for x <= 1, factorial for 0..12, matrix times vector for square matrices"}});
  return main_(P, argc, argv);
}
