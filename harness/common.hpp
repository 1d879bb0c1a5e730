// Generators and reference formulas shared by the harnesses.
#pragma once
#include "pbt.hpp"
#include <BSMPT/ThermalFunctions/ThermalFunctions.h>
#include <BSMPT/minimizer/Minimizer.h>
#include <BSMPT/models/ClassPotentialOrigin.h>
#include <BSMPT/models/IncludeAllModels.h>
#include <BSMPT/models/SMparam.h>
#include <BSMPT/utility/Logger.h>
#include <complex>
#include <memory>

using namespace BSMPT;
using pbt::Ctx;
using pbt::Src;
using pbt::str;
typedef std::vector<double> Vec;
typedef std::complex<double> C;

// A model defined by arbitrary (symmetric) coupling tensors.
class Toy : public Class_Potential_Origin
{
public:
  Vec L1, C1;
  std::vector<Vec> L2, C2;
  std::vector<std::vector<Vec>> L3, C3;
  std::vector<std::vector<std::vector<Vec>>> L4, C4, G;
  std::vector<std::vector<std::vector<C>>> Q, L;
  std::vector<std::vector<C>> Q2, Lp2;
  Vec vev; // tree-level vacuum, NHiggs
  double scl = 246.22;

  Toy(std::size_t nH, std::size_t nG, std::size_t nQ, std::size_t nL, std::vector<std::size_t> order)
      : Class_Potential_Origin(GetSMConstants())
  {
    NNeutralHiggs = nH;
    NChargedHiggs = 0;
    NHiggs        = nH;
    NGauge        = nG;
    NQuarks       = nQ;
    NLepton       = nL;
    nVEV          = order.size();
    VevOrder      = order;
    nPar          = 1;
    nParCT        = 1;
    initVectors();
    zero();
  }
  void zero()
  {
    auto n = NHiggs, g = NGauge;
    L1 = C1 = Vec(n, 0);
    L2 = C2 = std::vector<Vec>(n, Vec(n, 0));
    L3 = C3 = std::vector<std::vector<Vec>>(n, L2);
    L4 = C4 = std::vector<std::vector<std::vector<Vec>>>(n, L3);
    G       = std::vector<std::vector<std::vector<Vec>>>(g, std::vector<std::vector<Vec>>(g, L2));
    Q       = std::vector<std::vector<std::vector<C>>>(NQuarks,
                                                 std::vector<std::vector<C>>(NQuarks, std::vector<C>(n, 0)));
    L       = std::vector<std::vector<std::vector<C>>>(NLepton,
                                                 std::vector<std::vector<C>>(NLepton, std::vector<C>(n, 0)));
    Q2      = std::vector<std::vector<C>>(NQuarks, std::vector<C>(NQuarks, 0));
    Lp2     = std::vector<std::vector<C>>(NLepton, std::vector<C>(NLepton, 0));
    vev     = Vec(n, 0);
  }
  // copy the tensors into the base class; call after filling them
  void install()
  {
    set_gen({});
    SetCurvatureDone = false;
    SetCurvatureArrays();
    CalculateDebye();
    CalculateDebyeGauge();
    for (std::size_t i = 0; i < NHiggs; i++)
      HiggsVev[i] = vev[i];
  }
  void SetCurvatureArrays() override
  {
    Curvature_Higgs_L1    = L1;
    Curvature_Higgs_L2    = L2;
    Curvature_Higgs_L3    = L3;
    Curvature_Higgs_L4    = L4;
    Curvature_Higgs_CT_L1 = C1;
    Curvature_Higgs_CT_L2 = C2;
    Curvature_Higgs_CT_L3 = C3;
    Curvature_Higgs_CT_L4 = C4;
    Curvature_Gauge_G2H2  = G;
    Curvature_Quark_F2H1  = Q;
    Curvature_Lepton_F2H1 = L;
    Curvature_Quark_F2    = Q2;
    Curvature_Lepton_F2   = Lp2;
    HiggsVev              = vev;
    SetCurvatureDone      = true;
  }
  void set_gen(const Vec &) override
  {
    scale   = scl;
    vevTree = vev;
    vevTreeMin.assign(nVEV, 0);
    for (std::size_t i = 0; i < nVEV; i++)
      vevTreeMin[i] = vev[VevOrder[i]];
  }
  void ReadAndSet(const std::string &, Vec &) override {}
  std::vector<std::string> addLegendCT() const override { return {"dummyCT"}; }
  std::vector<std::string> addLegendTemp() const override
  {
    std::vector<std::string> r{"T_c", "omega_c", "omega_c/T_c"};
    for (auto &s : addLegendVEV())
      r.push_back(s + "(T_c)");
    return r;
  }
  std::vector<std::string> addLegendTripleCouplings() const override { return {}; }
  std::vector<std::string> addLegendVEV() const override
  {
    std::vector<std::string> r;
    for (std::size_t i = 0; i < nVEV; i++)
      r.push_back("w" + std::to_string(i));
    return r;
  }
  void set_CT_Pot_Par(const Vec &) override {}
  void write() const override {}
  bool CalculateDebyeSimplified() override { return false; }
  bool CalculateDebyeGaugeSimplified() override { return false; }
  double VTreeSimplified(const Vec &) const override { return 0; }
  double VCounterSimplified(const Vec &) const override { return 0; }
  void TripleHiggsCouplings() override {}
  Vec calc_CT() const override { return {0}; }
  void Debugging(const Vec &, Vec &) const override {}
  using Class_Potential_Origin::DebyeGauge;
  using Class_Potential_Origin::DebyeHiggs;
  using Class_Potential_Origin::HiggsRotationMatrix;
  using Class_Potential_Origin::NColour;
};

inline void sym3set(std::vector<std::vector<Vec>> &t, int a, int b, int c, double x)
{
  int p[3] = {a, b, c};
  std::sort(p, p + 3);
  do
    t[p[0]][p[1]][p[2]] = x;
  while (std::next_permutation(p, p + 3));
}
inline void sym4set(std::vector<std::vector<std::vector<Vec>>> &t, int a, int b, int c, int d, double x)
{
  int p[4] = {a, b, c, d};
  std::sort(p, p + 4);
  do
    t[p[0]][p[1]][p[2]][p[3]] = x;
  while (std::next_permutation(p, p + 4));
}

struct ToyOpt
{
  int minH = 2, maxH = 5, maxG = 4, maxQ = 4, maxL = 3;
  bool fullVEV = false; // every field is a VEV direction
  bool ct      = true;
  bool complexYukawa = true;
  double massscale = 2e4, cubic = 100, quartic = 3, g = 0.5, y = 0.5;
  bool positive = false; // make L2 large and positive (no tachyons near the origin)
};

inline std::shared_ptr<Toy> genToy(Src &s, const ToyOpt &o = ToyOpt())
{
  int nH = s.integer(o.minH, o.maxH);
  int nG = s.integer(1, o.maxG), nQ = s.integer(1, o.maxQ), nL = s.integer(1, o.maxL);
  std::vector<std::size_t> order;
  for (int i = 0; i < nH; i++)
    if (o.fullVEV || s.boolean()) order.push_back(i);
  if (order.empty()) order.push_back(s.below(nH));
  auto t = std::make_shared<Toy>(nH, nG, nQ, nL, order);
  auto val = [&](double a) { return s.chance(20) ? 0.0 : s.sym(a); };
  for (int i = 0; i < nH; i++)
  {
    t->L1[i] = val(o.massscale * 30);
    if (o.ct) t->C1[i] = val(o.massscale * 3);
    for (int j = i; j < nH; j++)
    {
      t->L2[i][j] = t->L2[j][i] = val(o.massscale) * (o.positive && i != j ? 0.1 : 1);
      if (o.positive && i == j) t->L2[i][i] = o.massscale * (0.5 + s.unit());
      if (o.ct) t->C2[i][j] = t->C2[j][i] = val(o.massscale / 10);
      for (int k = j; k < nH; k++)
      {
        sym3set(t->L3, i, j, k, val(o.cubic));
        if (o.ct) sym3set(t->C3, i, j, k, val(o.cubic / 10));
        for (int l = k; l < nH; l++)
        {
          double x = val(o.quartic);
          if (o.positive && i == j && k == l) x = std::abs(x);
          sym4set(t->L4, i, j, k, l, x);
          if (o.ct) sym4set(t->C4, i, j, k, l, val(o.quartic / 10));
        }
      }
    }
  }
  // gauge: sum over generators (T_a phi)(T_b phi) with antisymmetric real T_a, so
  // that the mass matrix is positive and symmetric in both index pairs
  std::vector<std::vector<Vec>> T(nG, std::vector<Vec>(nH, Vec(nH, 0)));
  for (int a = 0; a < nG; a++)
    for (int i = 0; i < nH; i++)
      for (int j = i + 1; j < nH; j++)
      {
        T[a][i][j] = val(o.g);
        // at least one field couples to the gauge bosons
        if (a == 0 && i == 0 && j == 1) T[a][i][j] = o.g * (0.2 + s.unit());
        T[a][j][i] = -T[a][i][j];
      }
  for (int a = 0; a < nG; a++)
    for (int b = 0; b < nG; b++)
      for (int i = 0; i < nH; i++)
        for (int j = 0; j < nH; j++)
        {
          double x = 0;
          for (int k = 0; k < nH; k++)
            x += T[a][k][i] * T[b][k][j] + T[b][k][i] * T[a][k][j];
          t->G[a][b][i][j] = x;
        }
  auto ferm = [&](int n, std::vector<std::vector<std::vector<C>>> &Y, std::vector<std::vector<C>> &M) {
    for (int a = 0; a < n; a++)
      for (int b = a; b < n; b++)
      {
        for (int i = 0; i < nH; i++)
        {
          C y(val(o.y), o.complexYukawa ? val(o.y) : 0.0);
          Y[a][b][i] = Y[b][a][i] = y;
        }
        if (s.chance(30))
        {
          C m(s.sym(50), o.complexYukawa ? s.sym(50) : 0.0);
          M[a][b] = M[b][a] = m;
        }
      }
  };
  ferm(nQ, t->Q, t->Q2);
  ferm(nL, t->L, t->Lp2);
  t->scl = s.logreal(50, 1000);
  for (int i = 0; i < nH; i++)
    t->vev[i] = 0;
  t->install();
  return t;
}

inline Vec genField(Src &s, std::size_t n, double a = 300)
{
  Vec v(n);
  for (auto &x : v)
    x = s.chance(20) ? 0 : s.sym(a);
  return v;
}

// ----------------------------------------------------------------- real models
struct Point
{
  ModelID::ModelIDs id;
  std::string name;
  Vec par;                // set_gen order
  std::string line;       // input-file order
};

inline std::string joinTab(const Vec &v)
{
  std::string o;
  for (std::size_t i = 0; i < v.size(); i++)
  {
    char b[40];
    snprintf(b, 40, "%.17g", v[i]);
    o += (i ? "\t" : "") + std::string(b);
  }
  return o;
}

inline const std::vector<std::string> &realModels()
{
  static const std::vector<std::string> m{"sm", "cxsm", "r2hdm", "c2hdm", "n2hdm", "cpinthedark"};
  return m;
}
inline ModelID::ModelIDs idOf(const std::string &n)
{
  using M = ModelID::ModelIDs;
  if (n == "sm") return M::SM;
  if (n == "cxsm") return M::CXSM;
  if (n == "r2hdm") return M::R2HDM;
  if (n == "c2hdm") return M::C2HDM;
  if (n == "n2hdm") return M::N2HDM;
  if (n == "cpinthedark") return M::CPINTHEDARK;
  return M::NotSet;
}

// The input line of a parameter point, for the given model
inline std::string lineOf(const std::string &n, const Vec &p)
{
  if (n == "sm" || n == "cxsm") return joinTab(p);
  if (n == "r2hdm") return joinTab({p[7], p[0], p[1], p[2], p[3], p[4], p[5], p[6]});
  if (n == "c2hdm") return joinTab({p[8], p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7]});
  if (n == "n2hdm") return joinTab({p[11], p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7], p[9], p[8], p[10]});
  Vec l(14, 0.5); // cpinthedark: columns 1-14 are not read by the model
  for (int i : {5, 6, 7, 8, 9, 10, 11, 12, 3, 4, 0, 1, 2})
    l.push_back(p[i]);
  return joinTab(l);
}

// A parameter point; not necessarily viable.  spread = 0 gives the documented
// example points.
inline Point genPoint(Src &s, const std::string &n, double spread = 0.3)
{
  Point P;
  P.name = n;
  P.id   = idOf(n);
  auto j = [&](double x) { return x * (1 + s.sym(spread)); };
  const double v = GetSMConstants().C_vev0;
  if (n == "sm")
    P.par = {j(-7823.7), j(0.129)};
  else if (n == "cxsm")
  {
    bool hs = s.boolean(), ha = s.chance(40);
    P.par = {v, hs ? j(540.5) : 0, ha ? j(300.) : 0, j(-10201.7), j(0.5168), j(-0.0374) * (s.boolean() ? -1 : 1),
             j(-370585.4), j(2.57), j(-3722.8), s.chance(50) ? 0 : s.sym(2e4), s.chance(50) ? 0 : s.sym(1e6),
             s.chance(50) ? 0 : s.sym(1e6)};
    if (!hs && !ha) // singlet unbroken: needs positive singlet masses
    {
      P.par[5] = s.real(0.1, 1);
      P.par[6] = s.real(-1e4, 4e4);
      P.par[7] = s.real(0.2, 2);
      P.par[8] = s.sym(5e3);
      P.par[9] = s.chance(50) ? 0 : s.sym(5e3);
    }
  }
  else if (n == "r2hdm" || n == "c2hdm" || n == "n2hdm")
  {
    int base = s.below(2);
    int type = s.integer(1, 4);
    // from masses: cos(beta-alpha) near 0
    double tb = s.logreal(1, 12), b = std::atan(tb), sb = std::sin(b), cb = std::cos(b);
    double cba = s.sym(0.15), a = b - std::acos(cba), sa = std::sin(a), ca = std::cos(a);
    double mh = 125.09, mH = s.real(150, 500), mA = s.real(100, 500), mC = s.real(100, 500);
    double m12 = (s.real(0.0, 1.0)) * mH * mH * sb * cb;
    double M2 = m12 / (sb * cb), v2 = v * v;
    double l1 = (mh * mh * sa * sa + mH * mH * ca * ca - M2 * sb * sb) / (v2 * cb * cb);
    double l2 = (mh * mh * ca * ca + mH * mH * sa * sa - M2 * cb * cb) / (v2 * sb * sb);
    double l3 = ((mH * mH - mh * mh) * sa * ca / (sb * cb) + 2 * mC * mC - M2) / v2;
    double l4 = (M2 + mA * mA - 2 * mC * mC) / v2;
    double l5 = (M2 - mA * mA) / v2;
    if (n == "r2hdm")
    {
      if (base == 0)
        P.par = {2.740594787, j(0.2423556498), 5.534491052, -2.585467181, -2.225991025, 7738.56, 4.63286, (double)type};
      else
        P.par = {l1, l2, l3, l4, l5, m12, tb, (double)type};
      if (s.chance(10)) // documented: tan(beta) may be negative
      {
        P.par[6] *= -1;
        P.par[5] *= -1;
      }
    }
    else if (n == "c2hdm")
    {
      double il5 = s.chance(20) ? 0 : s.sym(0.3);
      if (base == 0)
        P.par = {3.29771, j(0.274365), 4.71019, -2.23056, -2.43487, j(0.124948), 2706.86, 4.64487, (double)type};
      else
        P.par = {l1, l2, l3, l4, l5, il5, m12, tb, (double)type};
    }
    else
    {
      if (base == 0)
        P.par = {0.300812, 0.321809, -0.133425, 4.11105, -3.84178, j(9.46329), -0.750455, 0.743982, j(5.91129),
                 j(293.035), 4842.28, (double)type};
      else
        P.par = {l1, l2, l3, l4, l5, s.real(0.2, 5), s.sym(0.3), s.sym(0.3), tb, s.real(100, 800), m12, (double)type};
    }
  }
  else
  {
    P.par = {-7823.7540500000005, j(242571.64899822656), j(109399.20176343),
             j(93.784159581909734) * (s.boolean() ? -1 : 1), j(126.30387933116994),
             0.25810698810286969, j(4.6911643599657609), j(-0.21517372505705856), j(-0.42508424793839744),
             j(-0.13790431680607695), j(15.075540949860104), j(6.7788372529237835), j(-1.8651245632976341)};
  }
  P.line = lineOf(n, P.par);
  return P;
}

// Initialise; returns null when the point has a tachyonic tree-level spectrum or
// the model refuses it.
inline std::shared_ptr<Class_Potential_Origin> fresh(const std::string &n)
{
  return std::shared_ptr<Class_Potential_Origin>(ModelID::FChoose(idOf(n), GetSMConstants()));
}
inline std::shared_ptr<Class_Potential_Origin> initPoint(const Point &P, bool viable = true)
{
  auto m = fresh(P.name);
  if (viable)
  {
    m->set_gen(P.par);
    if (P.name == "n2hdm" || P.name == "r2hdm") m->SetCurvatureArrays();
    auto v = m->MinimizeOrderVEV(m->get_vevTreeMin());
    for (double x : m->HiggsMassesSquared(v))
      if (x < -1e-3 || std::isnan(x)) return nullptr;
    m = fresh(P.name);
  }
  m->initModel(P.par);
  return m;
}

// ------------------------------------------------- reference implementations
namespace ref
{
// values from the tensors, written as plain nested sums
struct T
{ // one set of tensors
  Vec a1;
  std::vector<Vec> a2;
  std::vector<std::vector<Vec>> a3;
  std::vector<std::vector<std::vector<Vec>>> a4;
};
inline T tree(const Class_Potential_Origin &m)
{
  return {m.Curvature_Higgs_L1, m.Curvature_Higgs_L2, m.Curvature_Higgs_L3, m.Curvature_Higgs_L4};
}
inline T ct(const Class_Potential_Origin &m)
{
  return {m.Curvature_Higgs_CT_L1, m.Curvature_Higgs_CT_L2, m.Curvature_Higgs_CT_L3, m.Curvature_Higgs_CT_L4};
}
inline double V(const T &t, const Vec &v, double *mag = nullptr)
{
  std::size_t n = v.size();
  double r = 0, m = 0;
  auto add = [&](double x) {
    r += x;
    m += std::abs(x);
  };
  for (std::size_t i = 0; i < n; i++)
  {
    add(t.a1[i] * v[i]);
    for (std::size_t j = 0; j < n; j++)
    {
      add(t.a2[i][j] * v[i] * v[j] / 2);
      for (std::size_t k = 0; k < n; k++)
      {
        add(t.a3[i][j][k] * v[i] * v[j] * v[k] / 6);
        for (std::size_t l = 0; l < n; l++)
          add(t.a4[i][j][k][l] * v[i] * v[j] * v[k] * v[l] / 24);
      }
    }
  }
  if (mag) *mag = m;
  return r;
}
inline double dV(const T &t, const Vec &v, std::size_t i, double *mag = nullptr)
{
  std::size_t n = v.size();
  double r = t.a1[i], m = std::abs(r);
  auto add = [&](double x) {
    r += x;
    m += std::abs(x);
  };
  for (std::size_t j = 0; j < n; j++)
  {
    add(t.a2[i][j] * v[j]);
    for (std::size_t k = 0; k < n; k++)
    {
      add(t.a3[i][j][k] * v[j] * v[k] / 2);
      for (std::size_t l = 0; l < n; l++)
        add(t.a4[i][j][k][l] * v[j] * v[k] * v[l] / 6);
    }
  }
  if (mag) *mag = m;
  return r;
}
inline Eigen::MatrixXd ddV(const T &t, const Vec &v)
{
  std::size_t n = v.size();
  Eigen::MatrixXd r(n, n);
  for (std::size_t i = 0; i < n; i++)
    for (std::size_t j = 0; j < n; j++)
    {
      double x = t.a2[i][j];
      for (std::size_t k = 0; k < n; k++)
      {
        x += t.a3[i][j][k] * v[k];
        for (std::size_t l = 0; l < n; l++)
          x += t.a4[i][j][k][l] * v[k] * v[l] / 2;
      }
      r(i, j) = x;
    }
  return r;
}
inline Eigen::MatrixXd gaugeM(const std::vector<std::vector<std::vector<Vec>>> &G, const Vec &v)
{
  std::size_t g = G.size(), n = v.size();
  Eigen::MatrixXd r = Eigen::MatrixXd::Zero(g, g);
  for (std::size_t a = 0; a < g; a++)
    for (std::size_t b = 0; b < g; b++)
      for (std::size_t i = 0; i < n; i++)
        for (std::size_t j = 0; j < n; j++)
          r(a, b) += G[a][b][i][j] * v[i] * v[j] / 2;
  return r;
}
inline Eigen::MatrixXcd fermM(const std::vector<std::vector<std::vector<C>>> &Y,
                              const std::vector<std::vector<C>> &M0, const Vec &v)
{
  std::size_t f = Y.size();
  Eigen::MatrixXcd r(f, f);
  for (std::size_t a = 0; a < f; a++)
    for (std::size_t b = 0; b < f; b++)
    {
      C x = M0[a][b];
      for (std::size_t i = 0; i < v.size(); i++)
        x += Y[a][b][i] * v[i];
      r(a, b) = x;
    }
  return r;
}
// sorted eigenvalues through a different algorithm (Jacobi rotations)
inline Vec eig(Eigen::MatrixXcd A)
{
  int n = A.rows();
  for (int sweep = 0; sweep < 60; sweep++)
  {
    double off = 0, tot = 0;
    for (int i = 0; i < n; i++)
      for (int j = 0; j < n; j++)
        (i == j ? tot : off) += std::norm(A(i, j));
    if (off <= 1e-34 * (tot + off)) break;
    for (int p = 0; p < n; p++)
      for (int q = p + 1; q < n; q++)
      {
        double ab = std::abs(A(p, q));
        if (ab == 0) continue;
        C ph     = A(p, q) / ab;
        double d = (A(q, q).real() - A(p, p).real()) / (2 * ab);
        double t = (d >= 0 ? 1 : -1) / (std::abs(d) + std::sqrt(d * d + 1));
        double c = 1 / std::sqrt(t * t + 1), s = t * c;
        for (int k = 0; k < n; k++)
        {
          C x = A(k, p), y = A(k, q);
          A(k, p) = c * x - s * std::conj(ph) * y;
          A(k, q) = s * ph * x + c * y;
        }
        for (int k = 0; k < n; k++)
        {
          C x = A(p, k), y = A(q, k);
          A(p, k) = c * x - s * ph * y;
          A(q, k) = s * std::conj(ph) * x + c * y;
        }
      }
  }
  Vec r(n);
  for (int i = 0; i < n; i++)
    r[i] = A(i, i).real();
  std::sort(r.begin(), r.end());
  return r;
}
} // namespace ref
