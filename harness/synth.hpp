// A model whose effective potential is any given function of fields and
// temperature, so that its minima, their free energies and symmetries are known.
#pragma once
#include "common.hpp"
#include <BSMPT/minimum_tracer/minimum_tracer.h>
#include <functional>

class Synth : public Toy
{
public:
  std::function<double(const Vec &, double)> V;  // VEV-space vector, temperature
  std::function<double(const Vec &, double)> dT; // temperature derivative
  std::size_t nEW;                               // the first nEW fields break the electroweak symmetry
  mutable std::atomic<long> calls{0};

  Synth(std::size_t n, std::size_t ew = 1) : Toy(n, 1, 1, 1, iota(n)), nEW(std::min(ew, n))
  {
    if (n > 1)
      for (std::size_t i = 0; i < nEW; i++)
        G[0][0][i][i] = 0.2;
    else if (nEW)
      G[0][0][0][0] = 0.2;
    for (std::size_t i = 0; i < n; i++)
      L2[i][i] = 1e4, L4[i][i][i][i] = 1;
  }
  static std::vector<std::size_t> iota(std::size_t n)
  {
    std::vector<std::size_t> r(n);
    for (std::size_t i = 0; i < n; i++)
      r[i] = i;
    return r;
  }
  double VEff(const Vec &v, double Temp = 0, int diff = 0, int = 1) const override
  {
    calls++;
    Vec x = v;
    if (diff == 0) return V(x, Temp);
    if (diff == -1)
    {
      if (dT) return dT(x, Temp);
      double h = 1e-3;
      return (8 * (V(x, Temp + h) - V(x, Temp - h)) - (V(x, Temp + 2 * h) - V(x, Temp - 2 * h))) / (12 * h);
    }
    double h = 1e-2;
    auto at  = [&](double d) {
      Vec y = x;
      y[diff - 1] += d;
      return V(y, Temp);
    };
    return (8 * (at(h) - at(-h)) - (at(2 * h) - at(-2 * h))) / (12 * h);
  }
};

// One field with minima at x[i](T) and values F[i](T) there, i = 0..n-1: the
// Hermite interpolation of (F_i, 0) at x_i plus k * prod (x-x_i)^2 / scale.
struct Wells
{
  using F1 = std::function<double(double)>;
  std::vector<F1> x, F, dF;
  double k = 1;
  // value at the field u
  double at(double u, double T) const
  {
    std::size_t n = x.size();
    double r = 0, prod = k;
    for (std::size_t i = 0; i < n; i++)
    {
      double xi = x[i](T), l = 1, dl = 0;
      for (std::size_t j = 0; j < n; j++)
        if (j != i)
        {
          double xj = x[j](T);
          l *= (u - xj) / (xi - xj);
          dl += 1 / (xi - xj);
        }
      r += F[i](T) * (1 - 2 * (u - xi) * dl) * l * l;
      double s = i ? std::abs(x[i](T) - x[i - 1](T)) : 1;
      prod *= (u - xi) / s * (u - xi) / s;
    }
    return r + prod;
  }
  // second derivative at the i-th minimum
  double curvature(std::size_t i, double T) const
  {
    double xi = x[i](T), h = 1e-2;
    return (at(xi + h, T) + at(xi - h, T) - 2 * at(xi, T)) / (h * h);
  }
};
