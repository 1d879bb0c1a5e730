// Exact thermal functions by tanh-sinh quadrature, independent of the code under
// test.  J_B(x) = Int k^2 ln(1 - exp(-sqrt(k^2+x))), J_F with a plus sign; real
// part for x < 0.
#pragma once
#include <cmath>
#include <functional>

namespace thermalref
{
// f receives (x, distance to a, distance to b), so that end-point singularities
// can be evaluated without cancellation
template <class F> double tanhsinh(F f, double a, double b, int level = 6)
{
  const double h = std::ldexp(1.0, -level) * 1.0;
  double sum = 0, half = (b - a) / 2;
  for (int i = -int(3.6 / h); i <= int(3.6 / h); i++)
  {
    double t = i * h, s = M_PI / 2 * std::sinh(t), w = M_PI / 2 * std::cosh(t) / std::pow(std::cosh(s), 2);
    if (w == 0 || !std::isfinite(w)) continue;
    double da = half * 2 / (1 + std::exp(-2 * s)), db = half * 2 / (1 + std::exp(2 * s)); // from a, from b
    if (da <= 0 || db <= 0) continue;
    double x = s < 0 ? a + da : b - db;
    double y = f(x, da, db);
    if (std::isfinite(y)) sum += w * y;
  }
  return sum * h * half;
}
// ln|2 sin(y/2)| integrated against g over [0, a], split at the zeros 2 pi n
template <class G> double logsin(G g, double a)
{
  double r  = 0;
  double lo = 0;
  for (int n = 0; lo < a; n++)
  {
    double hi  = std::min(a, 2 * M_PI * (n + 1));
    bool full  = hi < a || a == 2 * M_PI * (n + 1);
    double mid = (lo + hi) / 2;
    // left end is a zero of the sine; the right end is one if full
    r += tanhsinh(
        [&](double y, double da, double) { return g(y, a - y) * std::log(std::abs(2 * std::sin(da / 2))); }, lo, mid);
    r += tanhsinh(
        [&](double y, double, double db) {
          double s = full ? std::sin(db / 2) : std::sin((y - lo) / 2);
          return g(y, hi == a ? db : a - y) * std::log(std::abs(2 * s));
        },
        mid, hi);
    lo = hi;
  }
  return r;
}
// the integrands vary on the scales sqrt(x) and 1
template <class F> double pieces(F f, double x)
{
  double m = std::min(2.0, std::sqrt(x));
  double r = tanhsinh(f, m, 4) + tanhsinh(f, 4, 60);
  if (m > 0) r += tanhsinh(f, 0, m);
  return r;
}
inline double JB(double x)
{
  if (x >= 0)
    return pieces([&](double k, double, double) { return k * k * std::log(-std::expm1(-std::sqrt(k * k + x))); }, x);
  double a = std::sqrt(-x);
  double r = logsin([&](double y, double ay) { return y * std::sqrt(ay * (a + y)); }, a);
  auto out = [&](double y, double, double) { return y * std::sqrt(y * y - x) * std::log(-std::expm1(-y)); };
  return r + tanhsinh(out, 0, 4) + tanhsinh(out, 4, 60);
}
inline double JBd(double x)
{
  if (x >= 0)
  {
    auto f = [&](double k, double, double) {
      double e = std::sqrt(k * k + x);
      return e == 0 ? 0 : k * k / (2 * e * std::expm1(e));
    };
    return pieces(f, x);
  }
  double a = std::sqrt(-x);
  double r = logsin([&](double y, double ay) { return y / std::sqrt(ay * (a + y)); }, a);
  auto out = [&](double y, double, double) { return y / std::sqrt(y * y - x) * std::log(-std::expm1(-y)); };
  return -0.5 * (r + tanhsinh(out, 0, 4) + tanhsinh(out, 4, 60));
}
// sign convention of the code: fermions are subtracted with a positive J
inline double JF(double x)
{
  auto f = [&](double k, double, double) { return k * k * std::log1p(std::exp(-std::sqrt(k * k + x))); };
  return pieces(f, x);
}
inline double JFd(double x)
{
  auto f = [&](double k, double, double) {
    double e = std::sqrt(k * k + x);
    return e == 0 ? 0 : -k * k / (2 * e * (std::exp(e) + 1));
  };
  return pieces(f, x);
}
} // namespace thermalref
