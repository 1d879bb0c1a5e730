// C01-C05, C07-C11: the potential, its spectrum, derivatives and counterterms.
#include "common.hpp"
#include "thermalref.hpp"

typedef std::shared_ptr<Class_Potential_Origin> MP;
static double maxabs(const Vec &v)
{
  double m = 0;
  for (double x : v)
    m = std::max(m, std::abs(x));
  return m;
}

// set_All with the given parameters and random counterterms: everything except
// the (expensive) renormalisation
static MP quickModel(Src &s, Ctx &c, const std::string &n, Point &P, Vec &ct, double ctscale = 0.1)
{
  P      = genPoint(s, n);
  auto m = fresh(n);
  ct     = s.vec(m->get_nParCT(), 1.0);
  for (auto &x : ct)
    x *= ctscale * std::pow(10.0, s.integer(0, 3));
  m->set_All(P.par, ct);
  c.add("model", n).add("par", P.par);
  return m;
}

// ------------------------------------------------------------------------ C01
static void c01_toy(Src &s, Ctx &c)
{
  auto t = genToy(s);
  Vec v  = genField(s, t->get_NHiggs());
  c.add("nH", t->get_NHiggs()).add("v", v);
  c.nontrivial(t->get_NHiggs() > 1 && maxabs(v) > 0);
  auto T = ref::tree(*t), K = ref::ct(*t);
  double mag, x;
  x = ref::V(T, v, &mag);
  c.close(t->VTree(v), x, 1e-12, 1e-11 * mag, "tree-level potential");
  c.close(t->VTree(v, 0, true), x, 1e-12, 1e-11 * mag, "tree-level potential (explicit)");
  x = ref::V(K, v, &mag);
  c.close(t->CounterTerm(v), x, 1e-12, 1e-11 * mag, "counterterm potential");
  c.close(t->CounterTerm(v, 0, true), x, 1e-12, 1e-11 * mag, "counterterm potential (explicit)");
  auto nab = t->NablaVCT(v);
  auto hes = t->HessianCT(v);
  auto H   = ref::ddV(K, v);
  for (std::size_t i = 0; i < v.size(); i++)
  {
    x = ref::dV(T, v, i, &mag);
    c.close(t->VTree(v, i + 1), x, 1e-12, 1e-11 * mag, "tree-level derivative along field " + str(i));
    x = ref::dV(K, v, i, &mag);
    c.close(t->CounterTerm(v, i + 1), x, 1e-12, 1e-11 * mag, "counterterm derivative along field " + str(i));
    c.close(nab(i), x, 1e-12, 1e-11 * mag, "counterterm gradient");
    for (std::size_t j = 0; j < v.size(); j++)
      c.close(hes(i, j), H(i, j), 1e-11, 1e-6, "counterterm Hessian");
  }
}
// The potential is the same whether a vacuum is given in the reduced VEV space or
// in the full field space, at every order and derivative
static void c01_embed(Src &s, Ctx &c)
{
  MP m;
  Point P;
  Vec ct;
  if (s.chance(60))
  {
    ToyOpt o;
    o.minH = 2;
    m      = genToy(s, o);
  }
  else
    m = quickModel(s, c, s.pick(realModels()), P, ct);
  Vec w = genField(s, m->get_nVEV());
  if (w.size() == m->get_NHiggs()) c.discard();
  // reference embedding
  Vec v(m->get_NHiggs(), 0);
  for (std::size_t k = 0; k < w.size(); k++)
    v[m->Get_VevOrder()[k]] = w[k];
  c.nontrivial(maxabs(w) > 0);
  c.add("w", w).add("order", m->Get_VevOrder());
  Vec e = m->MinimizeOrderVEV(w);
  c.check(e == v, "embedding of the VEVs: got " + str(e) + ", expected " + str(v));
  double T  = s.chance(40) ? 0 : s.real(10, 300);
  int order = s.integer(0, 1);
  c.add("T", T).add("order", order);
  c.close(m->VEff(w, T, 0, order), m->VEff(v, T, 0, order), 1e-13, 0,
          "effective potential at order " + str(order) + " for a VEV-space argument");
  if (order == 0)
  {
    c.close(m->VEff(v, T, 0, 0), m->VTree(v), 1e-13, 0, "leading-order effective potential");
    for (std::size_t i = 1; i <= m->get_NHiggs(); i++)
      c.close(m->VEff(w, T, i, 0), m->VTree(v, i), 1e-12, 1e-12, "leading-order derivative for a VEV-space argument");
  }
  c.close(m->VEff(v, T), m->VTree(v) + m->CounterTerm(v) + m->V1Loop(v, T, 0), 1e-12, 0, "sum of the contributions");
  auto A = m->HiggsMassesSquared(w, T), B = m->HiggsMassesSquared(v, T);
  for (std::size_t i = 0; i < A.size(); i++)
    c.close(A[i], B[i], 1e-12, 1e-9, "Higgs masses for a VEV-space argument");
  A = m->GaugeMassesSquared(w, T), B = m->GaugeMassesSquared(v, T);
  for (std::size_t i = 0; i < A.size(); i++)
    c.close(A[i], B[i], 1e-12, 1e-9, "gauge masses for a VEV-space argument");
  A = m->QuarkMassesSquared(w), B = m->QuarkMassesSquared(v);
  for (std::size_t i = 0; i < A.size(); i++)
    c.close(A[i], B[i], 1e-12, 1e-9, "quark masses for a VEV-space argument");
  A = m->LeptonMassesSquared(w), B = m->LeptonMassesSquared(v);
  for (std::size_t i = 0; i < A.size(); i++)
    c.close(A[i], B[i], 1e-12, 1e-9, "lepton masses for a VEV-space argument");
  // any other dimension is refused
  Vec bad(m->get_NHiggs() + 1 + s.below(3), 1.0);
  bool thrown = false;
  try
  {
    m->VEff(bad);
  }
  catch (std::runtime_error &)
  {
    thrown = true;
  }
  c.check(thrown, "a field vector of the wrong dimension was accepted");
  m->SetUseTreeLevel(true);
  c.close(m->VEff(v, T), m->VTree(v), 1e-13, 0, "tree-level switch");
  m->SetUseTreeLevel(false);
  c.close(m->VEff(v, T), m->VTree(v) + m->CounterTerm(v) + m->V1Loop(v, T, 0), 1e-12, 0, "after the tree-level switch");
}
// closed formulas of the models against their coupling tensors
static void c01_closed(Src &s, Ctx &c)
{
  Point P;
  Vec ct;
  std::string n = s.pick(realModels());
  MP m          = quickModel(s, c, n, P, ct);
  Vec v         = m->MinimizeOrderVEV(genField(s, m->get_nVEV(), 400));
  c.add("v", v);
  c.nontrivial(maxabs(v) > 0);
  c.label(n);
  double mag, x = ref::V(ref::tree(*m), v, &mag);
  c.close(m->VTree(v), x, 1e-11, 1e-12 * mag, "tree-level potential of " + n);
  c.close(m->VTree(v, 0, true), x, 1e-11, 1e-12 * mag, "tree-level potential of " + n + " (explicit)");
  x = ref::V(ref::ct(*m), v, &mag);
  c.close(m->CounterTerm(v), x, 1e-11, 1e-12 * mag, "counterterm potential of " + n);
  c.close(m->CounterTerm(v, 0, true), x, 1e-11, 1e-12 * mag, "counterterm potential of " + n + " (explicit)");
  Vec f = genField(s, m->get_NHiggs(), 400);
  for (std::size_t i = 0; i < f.size(); i++)
  {
    x = ref::dV(ref::tree(*m), f, i, &mag);
    c.close(m->VTree(f, i + 1), x, 1e-11, 1e-12 * mag, "tree-level derivative of " + n);
    x = ref::dV(ref::ct(*m), f, i, &mag);
    c.close(m->CounterTerm(f, i + 1), x, 1e-11, 1e-12 * mag, "counterterm derivative of " + n);
  }
}
// The counterterm of a quartic coupling multiplies the same operator as the coupling
static void c01_ctops(Src &s, Ctx &c)
{
  // pairs (parameter index, counterterm index)
  static const std::map<std::string, std::vector<std::pair<int, int>>> map{
      {"cxsm", {{4, 1}, {5, 2}, {7, 4}}},
      {"r2hdm", {{0, 3}, {1, 4}, {2, 5}, {3, 6}, {4, 7}}},
      {"c2hdm", {{0, 4}, {1, 5}, {2, 6}, {3, 7}, {4, 8}, {5, 9}}},
      {"n2hdm", {{0, 3}, {1, 4}, {2, 5}, {3, 6}, {4, 7}, {5, 9}, {6, 10}, {7, 11}}},
      {"cpinthedark", {{5, 5}, {6, 6}, {7, 7}, {8, 8}, {9, 9}, {10, 10}, {11, 11}, {12, 12}}}};
  std::vector<std::string> names;
  for (auto &[k, v] : map)
    names.push_back(k);
  std::string n = s.pick(names);
  Point P       = genPoint(s, n);
  auto &pairs   = map.at(n);
  auto a = fresh(n), b = fresh(n);
  Vec ct(a->get_nParCT(), 0), par2 = P.par;
  c.add("model", n);
  c.label(n);
  bool any = false;
  for (auto [ip, ic] : pairs)
    if (s.boolean())
    {
      double d = s.sym(3);
      ct[ic]   = d;
      par2[ip] += d;
      any = any || d != 0;
    }
  c.add("shift", ct);
  c.nontrivial(any);
  a->set_All(P.par, ct);
  b->set_All(par2, Vec(ct.size(), 0));
  std::size_t N = a->get_NHiggs();
  auto A = a->Get_Curvature_Higgs_L4(), B = b->Get_Curvature_Higgs_L4();
  auto K = ref::ct(*a).a4;
  for (std::size_t i = 0; i < N; i++)
    for (std::size_t j = 0; j < N; j++)
      for (std::size_t k = 0; k < N; k++)
        for (std::size_t l = 0; l < N; l++)
          c.close(K[i][j][k][l], B[i][j][k][l] - A[i][j][k][l], 1e-10, 1e-10,
                  "quartic counterterm tensor of " + n + " at " + str(std::vector<std::size_t>{i, j, k, l}));
}
// counterterms enter linearly
static void c01_ctlinear(Src &s, Ctx &c)
{
  std::string n = s.pick(realModels());
  Point P       = genPoint(s, n);
  auto a = fresh(n), b = fresh(n), d = fresh(n);
  Vec x = s.vec(a->get_nParCT(), 10), y = s.vec(a->get_nParCT(), 10), z = x;
  double w = s.sym(3);
  for (std::size_t i = 0; i < z.size(); i++)
    z[i] = x[i] + w * y[i];
  a->set_All(P.par, x);
  b->set_All(P.par, y);
  d->set_All(P.par, z);
  Vec f = genField(s, a->get_NHiggs());
  c.add("model", n).add("x", x).add("y", y).add("v", f);
  c.nontrivial(maxabs(f) > 0);
  double m1, m2;
  ref::V(ref::ct(*a), f, &m1);
  ref::V(ref::ct(*b), f, &m2);
  c.close(d->CounterTerm(f, 0, true), a->CounterTerm(f, 0, true) + w * b->CounterTerm(f, 0, true), 1e-10,
          1e-11 * (m1 + std::abs(w) * m2), "linearity in the counterterms of " + n);
}

// ------------------------------------------------------------------------ C02
// The spectrum as eigenvalues of matrices formed from the tensors
static Vec clip(Vec v, double thr)
{
  for (auto &x : v)
    if (std::abs(x) < thr) x = 0;
  return v;
}
struct Spectrum
{
  Vec H, H0, G, G0, Q, L;
};
static Eigen::MatrixXd toM(const std::vector<Vec> &a)
{
  Eigen::MatrixXd r(a.size(), a.size());
  for (std::size_t i = 0; i < a.size(); i++)
    for (std::size_t j = 0; j < a.size(); j++)
      r(i, j) = a[i][j];
  return r;
}
// sorted Higgs thermal mass coefficients
static Eigen::MatrixXd debyeRef(const Class_Potential_Origin &m, bool leptons = true)
{
  std::size_t n = m.get_NHiggs();
  Eigen::MatrixXd r(n, n);
  auto &L4 = m.Get_Curvature_Higgs_L4();
  auto &G  = m.Get_Curvature_Gauge_G2H2();
  auto &Q  = m.Get_Curvature_Quark_F2H1();
  auto &L  = m.Get_Curvature_Lepton_F2H1();
  for (std::size_t i = 0; i < n; i++)
    for (std::size_t j = 0; j < n; j++)
    {
      double x = 0;
      for (std::size_t k = 0; k < n; k++)
        x += L4[i][j][k][k] / 24;
      for (std::size_t a = 0; a < m.get_NGauge(); a++)
        x += G[a][a][i][j] / 8;
      for (std::size_t a = 0; a < m.get_NQuarks(); a++)
        for (std::size_t b = 0; b < m.get_NQuarks(); b++)
          x += (std::conj(Q[a][b][i]) * Q[a][b][j]).real() / 4;
      if (leptons)
        for (std::size_t a = 0; a < m.get_NLepton(); a++)
          for (std::size_t b = 0; b < m.get_NLepton(); b++)
            x += (std::conj(L[a][b][i]) * L[a][b][j]).real() / 12;
      r(i, j) = x;
    }
  return r;
}
static Spectrum spectrum(const Class_Potential_Origin &m, const Vec &v, double T)
{
  Spectrum s;
  auto H = ref::ddV(ref::tree(m), v);
  auto G = ref::gaugeM(m.Get_Curvature_Gauge_G2H2(), v);
  s.H0   = clip(ref::eig(H.cast<C>()), 1e-5);
  s.G0   = clip(ref::eig(G.cast<C>()), 1e-5);
  H += T * T * toM(m.get_DebyeHiggs());
  G += T * T * toM(m.DebyeGauge);
  s.H    = clip(ref::eig(H.cast<C>()), 1e-5);
  s.G    = clip(ref::eig(G.cast<C>()), 1e-5);
  auto Q = ref::fermM(m.Get_Curvature_Quark_F2H1(), m.Get_Curvature_Quark_F2(), v);
  auto L = ref::fermM(m.Get_Curvature_Lepton_F2H1(), m.Get_Curvature_Lepton_F2(), v);
  s.Q    = clip(ref::eig(Q.adjoint() * Q), 1e-10);
  s.L    = clip(ref::eig(L.adjoint() * L), 1e-10);
  return s;
}
static void cmp(Ctx &c, const Vec &a, const Vec &b, double rel, double abs, const std::string &what)
{
  c.check(a.size() == b.size(), what + ": " + str(a.size()) + " values instead of " + str(b.size()));
  double mag = maxabs(b);
  for (std::size_t i = 0; i < a.size(); i++)
    c.close(a[i], b[i], 0, abs + rel * mag, what + " [" + str(i) + "]");
}
static void c02_core(Ctx &c, const MP &m, const Vec &v, double T)
{
  auto s = spectrum(*m, v, T);
  cmp(c, m->HiggsMassesSquared(v, T), s.H, 1e-11, 2e-5, "scalar masses");
  cmp(c, m->HiggsMassesSquared(v), s.H0, 1e-11, 2e-5, "zero-temperature scalar masses");
  cmp(c, m->GaugeMassesSquared(v, T), s.G, 1e-11, 2e-5, "gauge boson masses");
  cmp(c, m->GaugeMassesSquared(v), s.G0, 1e-11, 2e-5, "zero-temperature gauge boson masses");
  cmp(c, m->QuarkMassesSquared(v), s.Q, 1e-11, 1e-9, "quark masses");
  cmp(c, m->LeptonMassesSquared(v), s.L, 1e-11, 1e-9, "lepton masses");
  auto H = ref::ddV(ref::tree(*m), v);
  H += T * T * toM(m->get_DebyeHiggs());
  auto M     = m->HiggsMassMatrix(v, T);
  double mag = H.cwiseAbs().maxCoeff();
  c.check((M - H).cwiseAbs().maxCoeff() <= 1e-11 * mag + 1e-9, "scalar mass matrix");
  c.check((m->HiggsMassMatrix(v, T, -1) - 2 * T * toM(m->get_DebyeHiggs())).cwiseAbs().maxCoeff() <= 1e-9,
          "temperature derivative of the scalar mass matrix");
  for (std::size_t k = 0; k < v.size(); k++)
  { // the tree-level masses are quadratic in the field: central differences are exact
    Vec p = v, q = v;
    p[k] += 64;
    q[k] -= 64;
    Eigen::MatrixXd d = (ref::ddV(ref::tree(*m), p) - ref::ddV(ref::tree(*m), q)) / 128;
    c.check((m->HiggsMassMatrix(v, T, k + 1) - d).cwiseAbs().maxCoeff() <= 1e-9 * (1 + d.cwiseAbs().maxCoeff()) + 1e-12 * mag,
            "field derivative of the scalar mass matrix");
  }
  auto Q = ref::fermM(m->Get_Curvature_Quark_F2H1(), m->Get_Curvature_Quark_F2(), v);
  auto L = ref::fermM(m->Get_Curvature_Lepton_F2H1(), m->Get_Curvature_Lepton_F2(), v);
  c.check((m->QuarkMassMatrix(v) - Q).cwiseAbs().maxCoeff() <= 1e-10 * (1 + Q.cwiseAbs().maxCoeff()), "quark mass matrix");
  c.check((m->LeptonMassMatrix(v) - L).cwiseAbs().maxCoeff() <= 1e-10 * (1 + L.cwiseAbs().maxCoeff()),
          "lepton mass matrix");
  // mass eigenvalues: sum, sum of squares and product against the matrix
  auto inv = [&](std::vector<C> ev, Eigen::MatrixXcd A, const char *what) {
    C s1 = 0, s2 = 0;
    for (auto x : ev)
    {
      s1 += x;
      s2 += x * x;
    }
    double n = A.norm();
    c.check(std::abs(s1 - A.trace()) <= 1e-8 * (n + 1e-6), std::string(what) + ": trace");
    c.check(std::abs(s2 - (A * A).trace()) <= 1e-8 * (n * n + 1e-6), std::string(what) + ": trace of the square");
  };
  inv(m->QuarkMasses(v), Q, "quark mass eigenvalues");
  inv(m->LeptonMasses(v), L, "lepton mass eigenvalues");
}
static void c02_toy(Src &s, Ctx &c)
{
  auto t   = genToy(s);
  Vec v    = genField(s, t->get_NHiggs());
  double T = s.chance(20) ? 0 : s.logreal(1, 500);
  c.add("nH", t->get_NHiggs()).add("v", v).add("T", T);
  c.nontrivial(maxabs(v) > 0 && T > 0);
  auto D = toM(t->get_DebyeHiggs());
  auto R = debyeRef(*t);
  for (int i = 0; i < D.rows(); i++)
    for (int j = 0; j < D.rows(); j++)
      c.close(D(i, j), R(i, j), 1e-12, 1.1e-5, "scalar Debye coefficient " + str(i) + "," + str(j));
  // gauge: every gauge boson that couples at all couples to the same fields
  std::size_t n = t->get_NHiggs(), cnt = 0;
  auto &G = t->Get_Curvature_Gauge_G2H2();
  bool ok = true;
  for (std::size_t i = 0; i < n; i++)
  {
    cnt += G[0][0][i][i] != 0;
    for (std::size_t a = 0; a < G.size(); a++)
      ok = ok && ((G[a][a][i][i] != 0) == (G[0][0][i][i] != 0));
  }
  if (ok)
    for (std::size_t a = 0; a < G.size(); a++)
      for (std::size_t b = 0; b < G.size(); b++)
      {
        double x = 0;
        if (a == b)
          for (std::size_t i = 0; i < n; i++)
            x += G[a][a][i][i];
        x *= 2.0 / 3 * (cnt / 8.0 + 5) / cnt;
        c.close(t->DebyeGauge[a][b], x, 1e-12, 1.1e-5, "gauge Debye coefficient");
      }
  c02_core(c, t, v, T);
}
static void c02_real(Src &s, Ctx &c)
{
  Point P;
  Vec ct;
  std::string n = s.pick(realModels());
  MP m          = quickModel(s, c, n, P, ct);
  Vec v         = genField(s, m->get_NHiggs(), 300);
  double T      = s.chance(20) ? 0 : s.logreal(1, 500);
  c.add("v", v).add("T", T);
  c.label(n);
  c.nontrivial(maxabs(v) > 0 && T > 0);
  // Debye coefficients: closed formulas may leave out the light Yukawa couplings
  auto D = toM(m->get_DebyeHiggs());
  auto R = debyeRef(*m);
  double yb2 = 0; // everything but the top
  double tot = 0;
  for (int i = 0; i < R.rows(); i++)
    tot += R(i, i);
  {
    auto &Q  = m->Get_Curvature_Quark_F2H1();
    auto &L  = m->Get_Curvature_Lepton_F2H1();
    double mt = 0;
    Vec per;
    for (std::size_t a = 0; a < Q.size(); a++)
      for (std::size_t b = 0; b < Q.size(); b++)
        for (auto &x : Q[a][b])
          mt = std::max(mt, std::norm(x));
    for (std::size_t a = 0; a < Q.size(); a++)
      for (std::size_t b = 0; b < Q.size(); b++)
        for (auto &x : Q[a][b])
          if (std::norm(x) < 2.5e-4 * mt || std::norm(x) < 1e-4) yb2 += std::norm(x) / 4;
    for (auto &a : L)
      for (auto &b : a)
        for (auto &x : b)
          yb2 += std::norm(x) / 12;
  }
  double tol = 1e-4 + yb2;
  c.add("light Yukawas", yb2);
  for (int i = 0; i < D.rows(); i++)
    for (int j = 0; j < D.rows(); j++)
      c.close(D(i, j), R(i, j), 0, tol, "scalar Debye coefficient " + str(i) + "," + str(j) + " of " + n);
  m->CalculateDebye(true);
  D = toM(m->get_DebyeHiggs());
  for (int i = 0; i < D.rows(); i++)
    for (int j = 0; j < D.rows(); j++)
      c.close(D(i, j), R(i, j), 1e-11, 1.1e-5, "explicit scalar Debye coefficient " + str(i) + "," + str(j) + " of " + n);
  c02_core(c, m, v, T);
}

// ------------------------------------------------------------------------ C03
// The one-loop effective potential from a spectrum
static double cw(double m2, double mu, double k)
{
  return std::abs(m2) < 1e-4 ? 0 : m2 * m2 / (64 * M_PI * M_PI) * (std::log(std::abs(m2) / (mu * mu)) - k);
}
static double v1ref(const Spectrum &s, double T, double mu, double *mag)
{
  double r = 0, m = 0;
  auto add = [&](double x) {
    r += x;
    m += std::abs(x);
  };
  auto B = [&](double m2, double k) {
    double x = cw(m2, mu, k);
    if (T > 0) x += std::pow(T, 4) / (2 * M_PI * M_PI) * ThermalFunctions::JbosonInterpolated(m2 / T / T);
    return x;
  };
  auto F = [&](double m2) {
    double x = cw(m2, mu, 1.5);
    if (T > 0) x += std::pow(T, 4) / (2 * M_PI * M_PI) * ThermalFunctions::JfermionInterpolated(m2 / T / T);
    return x;
  };
  for (double x : s.H0)
    add(B(x, 1.5));
  for (double x : s.G0)
    add(3 * B(x, 5. / 6));
  for (double x : s.Q)
    add(-6 * F(x));
  for (double x : s.L)
    add(-2 * F(x));
  double d = 0;
  auto p   = [](double x) { return x > 0 ? x * std::sqrt(x) : 0; };
  for (double x : s.H)
    d += p(x);
  for (double x : s.H0)
    d -= p(x);
  for (double x : s.G)
    d += p(x);
  for (double x : s.G0)
    d -= p(x);
  add(-T / (12 * M_PI) * d);
  *mag = m;
  return r;
}
static MP anyModel(Src &s, Ctx &c, int toyPercent, const ToyOpt &o = ToyOpt())
{
  if (s.chance(toyPercent))
  {
    auto t = genToy(s, o);
    c.label("toy");
    c.add("nH", t->get_NHiggs());
    return t;
  }
  Point P;
  Vec ct;
  std::string n = s.pick(realModels());
  c.label(n);
  return quickModel(s, c, n, P, ct);
}
static void c03_formula(Src &s, Ctx &c)
{
  MP m     = anyModel(s, c, 60);
  Vec v    = genField(s, m->get_NHiggs());
  double T = s.chance(20) ? 0 : s.logreal(0.5, 1000);
  if (s.chance(30)) m->set_scale(s.logreal(50, 2000));
  c.add("v", v).add("T", T).add("scale", m->get_scale());
  c.nontrivial(maxabs(v) > 0);
  auto sp = spectrum(*m, v, T);
  double mag, x = v1ref(sp, T, m->get_scale(), &mag);
  c.close(m->V1Loop(v, T, 0), x, 1e-10, 1e-10 * mag + 1e-6, "one-loop potential");
  double tm, tree = ref::V(ref::tree(*m), v, &tm);
  double km, k = ref::V(ref::ct(*m), v, &km);
  // models with closed formulas promise agreement in the VEV space only
  tree = m->VTree(v);
  k    = m->CounterTerm(v);
  c.close(m->VEff(v, T), tree + k + x, 1e-10, 1e-10 * (mag + tm + km) + 1e-6, "effective potential");
}
// mu d/dmu of the loop is fixed by the supertrace of the fourth power of the masses
static void c03_scale(Src &s, Ctx &c)
{
  MP m     = anyModel(s, c, 60);
  Vec v    = genField(s, m->get_NHiggs());
  double T = s.boolean() ? 0 : s.logreal(1, 500);
  double a = s.logreal(50, 2000), b = s.logreal(50, 2000);
  c.add("v", v).add("T", T).add("scales", Vec{a, b});
  c.nontrivial(maxabs(v) > 0 && a != b);
  auto H = ref::ddV(ref::tree(*m), v);
  auto G = ref::gaugeM(m->Get_Curvature_Gauge_G2H2(), v);
  auto Q = ref::fermM(m->Get_Curvature_Quark_F2H1(), m->Get_Curvature_Quark_F2(), v);
  auto L = ref::fermM(m->Get_Curvature_Lepton_F2H1(), m->Get_Curvature_Lepton_F2(), v);
  Eigen::MatrixXcd q = Q.adjoint() * Q, l = L.adjoint() * L;
  double str = (H * H).trace() + 3 * (G * G).trace() - 6 * (q * q).trace().real() - 2 * (l * l).trace().real();
  double mag = (H * H).trace() + 3 * (G * G).trace() + 6 * (q * q).trace().real() + 2 * (l * l).trace().real();
  m->set_scale(a);
  double x = m->V1Loop(v, T, 0);
  m->set_scale(b);
  double y = m->V1Loop(v, T, 0);
  c.close(y - x, -str / (64 * M_PI * M_PI) * 2 * std::log(b / a), 1e-9,
          1e-10 * mag + 1e-10 * (std::abs(x) + std::abs(y)) + 1e-6, "renormalisation-scale dependence");
}
// zero temperature is the limit of small temperatures; large temperatures follow
// the Stefan-Boltzmann law with the resummed cubic term
static void c03_limits(Src &s, Ctx &c)
{
  MP m  = anyModel(s, c, 50);
  Vec v = genField(s, m->get_NHiggs());
  c.add("v", v);
  c.nontrivial(maxabs(v) > 0);
  auto h = m->HiggsMassesSquared(v), g = m->GaugeMassesSquared(v);
  double T    = 1e6;
  double dof  = m->get_NHiggs() + 3.0 * m->get_NGauge() + 7. / 8 * (6.0 * m->get_NQuarks() + 2.0 * m->get_NLepton());
  auto sp     = spectrum(*m, Vec(m->get_NHiggs(), 0), T);
  double d    = 0;
  for (double x : sp.H)
    d += x > 0 ? x * std::sqrt(x) : 0;
  for (double x : sp.G)
    d += x > 0 ? x * std::sqrt(x) : 0;
  double expect = -M_PI * M_PI / 90 * dof * std::pow(T, 4) - T / (12 * M_PI) * d;
  // interpolated fermion function is shifted by 0.0156 (see the thermal functions)
  double slack = (6.0 * m->get_NQuarks() + 2.0 * m->get_NLepton()) * 0.016 * std::pow(T, 4) / (2 * M_PI * M_PI);
  c.close(m->V1Loop(v, T, 0), expect, 1e-3, slack, "high-temperature limit");
  double V0 = m->V1Loop(v, 0, 0), Vs = m->V1Loop(v, 1e-2, 0);
  double mag = 0;
  for (double x : h)
    mag += x * x;
  double neg = 0; // the thermal function oscillates for negative squared masses
  for (double x : h)
    if (x < 0) neg += std::pow(-x, 1.5);
  if (neg == 0) c.close(Vs, V0, 1e-9, 1e-10 * mag + 1e-2, "low-temperature limit");
}

// ------------------------------------------------------------------------ C04
// d/dm^2 of a boson or fermion contribution
static double cwd(double m2, double mu, double k)
{
  return std::abs(m2) < 1e-4 ? 0 : m2 / (32 * M_PI * M_PI) * (std::log(std::abs(m2) / (mu * mu)) - k + 0.5);
}
static double jb(double x) { return x < 0 ? ThermalFunctions::JbosonInterpolated(x) : thermalref::JB(x); }
static double jbd(double x) { return x < 0 ? ThermalFunctions::JbosonInterpolated(x, 1) : thermalref::JBd(x); }

struct Dec
{ // eigenvalues, and the expectation values of a perturbation
  Vec m, d;
};
static Dec decompose(const Eigen::MatrixXcd &M, const Eigen::MatrixXcd &D, double thr)
{
  Eigen::SelfAdjointEigenSolver<Eigen::MatrixXcd> es(M);
  Dec r;
  for (int i = 0; i < M.rows(); i++)
  {
    double x = es.eigenvalues()[i];
    r.m.push_back(std::abs(x) < thr ? 0 : x);
    r.d.push_back((es.eigenvectors().col(i).adjoint() * D * es.eigenvectors().col(i)).value().real());
  }
  return r;
}
struct Mats
{
  Eigen::MatrixXd H, G;
  Eigen::MatrixXcd Q, L;
};
static Mats mats(const Class_Potential_Origin &m, const Vec &v)
{
  return {ref::ddV(ref::tree(m), v), ref::gaugeM(m.Get_Curvature_Gauge_G2H2(), v),
          ref::fermM(m.Get_Curvature_Quark_F2H1(), m.Get_Curvature_Quark_F2(), v),
          ref::fermM(m.Get_Curvature_Lepton_F2H1(), m.Get_Curvature_Lepton_F2(), v)};
}
// derivative of the matrices along a field
static Mats dmats(const Class_Potential_Origin &m, const Vec &v, std::size_t k)
{
  Mats r;
  std::size_t n = v.size();
  auto &L3      = m.Get_Curvature_Higgs_L3();
  auto &L4      = m.Get_Curvature_Higgs_L4();
  r.H           = Eigen::MatrixXd(n, n);
  for (std::size_t i = 0; i < n; i++)
    for (std::size_t j = 0; j < n; j++)
    {
      double x = L3[i][j][k];
      for (std::size_t l = 0; l < n; l++)
        x += L4[i][j][k][l] * v[l];
      r.H(i, j) = x;
    }
  auto &G = m.Get_Curvature_Gauge_G2H2();
  r.G     = Eigen::MatrixXd(G.size(), G.size());
  for (std::size_t a = 0; a < G.size(); a++)
    for (std::size_t b = 0; b < G.size(); b++)
    {
      double x = 0;
      for (std::size_t l = 0; l < n; l++)
        x += (G[a][b][k][l] + G[a][b][l][k]) * v[l] / 2;
      r.G(a, b) = x;
    }
  auto M  = mats(m, v);
  auto f  = [&](const std::vector<std::vector<std::vector<C>>> &Y, const Eigen::MatrixXcd &M0) {
    Eigen::MatrixXcd y(Y.size(), Y.size());
    for (std::size_t a = 0; a < Y.size(); a++)
      for (std::size_t b = 0; b < Y.size(); b++)
        y(a, b) = Y[a][b][k];
    return Eigen::MatrixXcd(y.adjoint() * M0 + M0.adjoint() * y);
  };
  r.Q = f(m.Get_Curvature_Quark_F2H1(), M.Q);
  r.L = f(m.Get_Curvature_Lepton_F2H1(), M.L);
  return r;
}
// derivative of the loop potential along field k
static double dv1ref(const Class_Potential_Origin &m, const Vec &v, double T, std::size_t k, double *mag)
{
  auto M = mats(m, v), D = dmats(m, v, k);
  double mu = m.get_scale(), r = 0, g = 0;
  auto add = [&](double x) {
    r += x;
    g += std::abs(x);
  };
  double t2 = T * T / (2 * M_PI * M_PI);
  // the adaptive integrator occasionally misses 1.4e-4 of a thermal integral
  // (6e-4 below x = 1e-5)
  auto thermal = [&](double k, double x, double J) {
    g += std::abs(k * t2 * J) * (x < 1e-5 ? 800 : 200);
    return t2 * J;
  };
  auto h0 = decompose(M.H.cast<C>(), D.H.cast<C>(), 1e-5), g0 = decompose(M.G.cast<C>(), D.G.cast<C>(), 1e-5);
  for (std::size_t i = 0; i < h0.m.size(); i++)
    add(h0.d[i] * (cwd(h0.m[i], mu, 1.5) + (T > 0 ? thermal(h0.d[i], h0.m[i] / T / T, jbd(h0.m[i] / T / T)) : 0)));
  for (std::size_t i = 0; i < g0.m.size(); i++)
    add(3 * g0.d[i] * (cwd(g0.m[i], mu, 5. / 6) + (T > 0 ? thermal(3 * g0.d[i], g0.m[i] / T / T, jbd(g0.m[i] / T / T)) : 0)));
  auto ferm = [&](const Eigen::MatrixXcd &A, const Eigen::MatrixXcd &B, double f) {
    auto q = decompose(A.adjoint() * A, B, 1e-10);
    for (std::size_t i = 0; i < q.m.size(); i++)
      add(f * q.d[i] *
          (cwd(q.m[i], mu, 1.5) + (T > 0 ? thermal(f * q.d[i], q.m[i] / T / T, thermalref::JFd(std::max(0.0, q.m[i]) / T / T)) : 0)));
  };
  ferm(M.Q, D.Q, -6);
  ferm(M.L, D.L, -2);
  if (T > 0)
  {
    Eigen::MatrixXd HT = M.H + T * T * toM(m.get_DebyeHiggs()), GT = M.G + T * T * toM(m.DebyeGauge);
    auto h = decompose(HT.cast<C>(), D.H.cast<C>(), 1e-5), gg = decompose(GT.cast<C>(), D.G.cast<C>(), 1e-5);
    auto add32 = [&](const Dec &d, double sgn) {
      for (std::size_t i = 0; i < d.m.size(); i++)
        if (d.m[i] > 0) add(-T / (12 * M_PI) * 1.5 * sgn * d.d[i] * std::sqrt(d.m[i]));
    };
    add32(h, 1);
    add32(gg, 1);
    add32(h0, -1);
    add32(g0, -1);
  }
  *mag = g;
  return r;
}
static void c04_field(Src &s, Ctx &c)
{
  MP m     = anyModel(s, c, 70);
  Vec v    = genField(s, m->get_NHiggs());
  double T = s.chance(40) ? 0 : s.logreal(1, 500);
  c.add("v", v).add("T", T);
  c.nontrivial(maxabs(v) > 0);
  std::size_t k = s.below(v.size());
  c.add("field", k);
  double mag, x = dv1ref(*m, v, T, k, &mag);
  c.close(m->V1Loop(v, T, k + 1), x, 1e-6, 1e-6 * mag + 5e-3, "derivative of the one-loop potential");
  double tm, km;
  double t = ref::dV(ref::tree(*m), v, k, &tm), kk = ref::dV(ref::ct(*m), v, k, &km);
  c.close(m->VEff(v, T, k + 1), t + kk + x, 1e-6, 1e-6 * mag + 1e-9 * (tm + km) + 5e-3,
          "derivative of the effective potential");
}
static void c04_temperature(Src &s, Ctx &c)
{
  MP m     = anyModel(s, c, 70);
  Vec v    = genField(s, m->get_NHiggs());
  double T = s.logreal(2, 500);
  c.add("v", v).add("T", T);
  c.nontrivial(maxabs(v) > 0);
  auto M   = mats(*m, v);
  double g = 0, r = 0;
  auto add = [&](double x) {
    r += x;
    g += std::abs(x);
  };
  double t3 = T * T * T / (2 * M_PI * M_PI);
  auto h0 = clip(ref::eig(M.H.cast<C>()), 1e-5), g0 = clip(ref::eig(M.G.cast<C>()), 1e-5);
  auto fb = [&](double m2) { return t3 * (4 * jb(m2 / T / T) - 2 * m2 / T / T * jbd(m2 / T / T)); };
  auto ff = [&](double m2) {
    return t3 * (4 * thermalref::JF(m2 / T / T) - 2 * m2 / T / T * thermalref::JFd(m2 / T / T));
  };
  for (double x : h0)
    add(fb(x));
  for (double x : g0)
    add(3 * fb(x));
  for (double x : ref::eig(M.Q.adjoint() * M.Q))
    add(-6 * ff(std::max(x, 0.0)));
  for (double x : ref::eig(M.L.adjoint() * M.L))
    add(-2 * ff(std::max(x, 0.0)));
  auto p       = [](double x) { return x > 0 ? x * std::sqrt(x) : 0; };
  double debye = 0;
  for (double x : h0)
    debye -= p(x);
  for (double x : g0)
    debye -= p(x);
  auto th = [&](Eigen::MatrixXd A, Eigen::MatrixXd Pi) {
    Eigen::MatrixXd D = 2 * T * Pi;
    A += T * T * Pi;
    auto d = decompose(A.cast<C>(), D.cast<C>(), 1e-5);
    for (std::size_t i = 0; i < d.m.size(); i++)
      if (d.m[i] > 0) debye += p(d.m[i]) + T * 1.5 * std::sqrt(d.m[i]) * d.d[i];
  };
  th(M.H, toM(m->get_DebyeHiggs()));
  th(M.G, toM(m->DebyeGauge));
  add(-1 / (12 * M_PI) * debye);
  c.close(m->V1Loop(v, T, -1), r, 2e-6, 2e-6 * g, "temperature derivative of the one-loop potential");
  c.close(m->VEff(v, T, -1), r, 2e-6, 2e-6 * g, "temperature derivative of the effective potential");
}
// eigenvalue derivatives: [eigenvalues, derivatives] against the reference
// decomposition, as sums over degenerate groups
static void c04_masses(Src &s, Ctx &c)
{
  MP m     = anyModel(s, c, 70);
  Vec v    = genField(s, m->get_NHiggs());
  double T = s.chance(40) ? 0 : s.logreal(1, 500);
  int k    = s.below(v.size() + 1); // 0: temperature
  c.add("v", v).add("T", T).add("direction", k ? str(k - 1) : "temperature");
  c.nontrivial(maxabs(v) > 0);
  auto M = mats(*m, v);
  Eigen::MatrixXd PH = toM(m->get_DebyeHiggs()), PG = toM(m->DebyeGauge);
  Mats D;
  if (k)
    D = dmats(*m, v, k - 1);
  else
  {
    D.H = 2 * T * PH;
    D.G = 2 * T * PG;
  }
  auto judge = [&](const Vec &got, const Eigen::MatrixXcd &A, const Eigen::MatrixXcd &B, const char *what) {
    int n = A.rows();
    c.check((int)got.size() == 2 * n, std::string(what) + ": expected masses and derivatives");
    Vec ev(got.begin(), got.begin() + n);
    auto e = ref::eig(A);
    cmp(c, ev, e, 1e-11, 2e-5, std::string(what) + " (with derivatives)");
    // moments: sum_i d_i m_i^p = tr(B A^p), whatever the degeneracies
    double mag = std::max(A.norm(), 1e-3), dm = std::max(B.norm(), 1e-3);
    Eigen::MatrixXcd P = B;
    for (int p = 0; p < std::min(n, 4); p++)
    {
      double x = 0;
      for (int i = 0; i < n; i++)
        x += got[n + i] * std::pow(got[i], p);
      c.close(x, P.trace().real(), 1e-7, (2e-9 * dm + 2e-6) * n * std::pow(mag, p),
              std::string(what) + ": moment " + str(p) + " of the mass derivatives");
      P = A * P;
    }
    // and the individual values where the spectrum is well separated
    auto d = decompose(A, B, 1e-5);
    for (int i = 0; i < n; i++)
    {
      double gap = INFINITY;
      for (int j = 0; j < n; j++)
        if (j != i) gap = std::min(gap, std::abs(d.m[j] - d.m[i]));
      if (gap > 1e-3 * mag)
        c.close(got[n + i], d.d[i], 1e-7, 2e-6 + 1e-8 * dm, std::string(what) + ": derivative of the mass " + str(i));
    }
  };
  Eigen::MatrixXd HT = M.H + T * T * PH, GT = M.G + T * T * PG;
  judge(m->HiggsMassesSquared(v, T, k ? k : -1), HT.cast<C>(), D.H.cast<C>(), "scalar masses");
  judge(m->GaugeMassesSquared(v, T, k ? k : -1), GT.cast<C>(), D.G.cast<C>(), "gauge boson masses");
  if (k)
  {
    judge(m->QuarkMassesSquared(v, k), M.Q.adjoint() * M.Q, D.Q, "quark masses");
    judge(m->LeptonMassesSquared(v, k), M.L.adjoint() * M.L, D.L, "lepton masses");
  }
}
// the eigenvalue-derivative kernels on matrices with prescribed degeneracies
static void c04_eigen(Src &s, Ctx &c)
{
  static std::shared_ptr<Toy> any;
  if (!any) any = std::make_shared<Toy>(2, 1, 1, 1, std::vector<std::size_t>{0});
  int n = s.integer(1, 6);
  Eigen::MatrixXcd R(n, n), B(n, n);
  for (int i = 0; i < n; i++)
    for (int j = 0; j < n; j++)
    {
      R(i, j) = C(s.sym(1), s.sym(1));
      B(i, j) = C(s.sym(5), s.sym(5));
    }
  B = (B + B.adjoint()).eval();
  Eigen::HouseholderQR<Eigen::MatrixXcd> qr(R);
  Eigen::MatrixXcd U = qr.householderQ();
  Eigen::VectorXcd d(n);
  std::vector<double> lev;
  bool rep = false;
  for (int i = 0; i < n; i++)
  {
    if (i && s.chance(40))
    {
      d[i] = d[s.below(i)];
      rep  = true;
    }
    else
      d[i] = std::round(s.sym(50));
  }
  Eigen::MatrixXcd A = U * d.asDiagonal() * U.adjoint();
  A                  = ((A + A.adjoint()) / 2).eval();
  c.nontrivial(rep && n > 2);
  c.label(rep ? "degenerate" : "simple");
  auto got = any->FirstDerivativeOfEigenvalues(A, B);
  c.check((int)got.size() == 2 * n, "size of the result");
  // group projectors
  std::vector<double> seen;
  int pos = 0;
  Vec sorted;
  for (int i = 0; i < n; i++)
    sorted.push_back(d[i].real());
  std::sort(sorted.begin(), sorted.end());
  while (pos < n)
  {
    int e = pos;
    while (e < n && sorted[e] == sorted[pos])
      e++;
    int g = e - pos;
    Eigen::MatrixXcd Phi(n, g);
    int q = 0;
    for (int i = 0; i < n; i++)
      if (d[i].real() == sorted[pos]) Phi.col(q++) = U.col(i);
    Vec want = ref::eig(Phi.adjoint() * B * Phi);
    Vec have(got.begin() + n + pos, got.begin() + n + e);
    std::sort(have.begin(), have.end());
    for (int i = 0; i < g; i++)
    {
      c.close(got[pos + i], sorted[pos], 1e-10, 2e-6, "eigenvalue");
      c.close(have[i], want[i], 1e-8, 2e-6, "derivative inside a group of " + str(g) + " equal eigenvalues");
    }
    pos = e;
  }
}
// second derivatives for simple spectra
static void c04_second(Src &s, Ctx &c)
{
  static std::shared_ptr<Toy> any;
  if (!any) any = std::make_shared<Toy>(2, 1, 1, 1, std::vector<std::size_t>{0});
  int n    = s.integer(2, 5);
  auto sym = [&](double a) {
    Eigen::MatrixXd r(n, n);
    for (int i = 0; i < n; i++)
      for (int j = i; j < n; j++)
        r(i, j) = r(j, i) = s.sym(a);
    return r;
  };
  Eigen::MatrixXd M = sym(1), X = sym(3), Y = sym(3), Z = sym(3);
  for (int i = 0; i < n; i++)
    M(i, i) += 10 * i + s.unit();
  c.nontrivial(X.norm() > 0.1 && Y.norm() > 0.1);
  auto got = any->SecondDerivativeOfEigenvaluesNonRepeated(M, X, Y, Z);
  c.check((int)got.size() == 5 * n, "size of the result");
  Eigen::SelfAdjointEigenSolver<Eigen::MatrixXd> es(M);
  for (int i = 0; i < n; i++)
  {
    auto u    = es.eigenvectors().col(i);
    double li = es.eigenvalues()[i];
    double xy = (u.transpose() * Z * u).value();
    for (int j = 0; j < n; j++)
      if (j != i)
      {
        auto w = es.eigenvectors().col(j);
        xy += 2 * (u.transpose() * X * w).value() * (w.transpose() * Y * u).value() / (li - es.eigenvalues()[j]);
      }
    c.close(got[n + 4 * i], li, 1e-10, 1e-10, "eigenvalue");
    c.close(got[n + 4 * i + 1], (u.transpose() * X * u).value(), 1e-9, 1e-9, "first derivative (x)");
    c.close(got[n + 4 * i + 2], (u.transpose() * Y * u).value(), 1e-9, 1e-9, "first derivative (y)");
    c.close(got[n + 4 * i + 3], xy, 1e-8, 1e-8, "mixed second derivative");
  }
}

// ------------------------------------------------------------------------ C05
// Derivatives of the zero-temperature loop at the vacuum
struct Wein
{
  Vec d1, d2, d3, d4;
};
static Wein weinberg(Toy &t, const Vec &v, int upto)
{
  t.HiggsVev          = v;
  t.CalcCouplingsdone = false;
  t.CalculatePhysicalCouplings();
  Wein w;
  if (upto >= 1) w.d1 = t.WeinbergFirstDerivative();
  if (upto >= 2) w.d2 = t.WeinbergSecondDerivative();
  if (upto >= 3) w.d3 = t.WeinbergThirdDerivative();
  if (upto >= 4) w.d4 = t.WeinbergForthDerivative();
  return w;
}
// a toy whose masses are positive around the vacuum
static std::shared_ptr<Toy> weinToy(Src &s, Ctx &c, int maxH)
{
  ToyOpt o;
  o.maxH     = maxH;
  o.maxG     = 2;
  o.maxQ     = 3;
  o.maxL     = 2;
  o.positive = true;
  o.cubic    = 30;
  o.quartic  = 1;
  o.ct       = false;
  auto t     = genToy(s, o);
  std::size_t n = t->get_NHiggs();
  int kind      = s.integer(0, 2);
  if (kind == 1)
  { // Dirac structure: equal masses in pairs for all fields, as for SM quarks
    c.label("paired fermions");
    for (int f = 0; f < 2; f++)
    {
      auto &Y = f ? t->L : t->Q;
      auto &M = f ? t->Lp2 : t->Q2;
      for (std::size_t a = 0; a < Y.size(); a++)
        for (std::size_t b = 0; b < Y.size(); b++)
        {
          bool keep = a / 2 == b / 2 && a != b;
          if (!keep)
          {
            M[a][b] = 0;
            for (auto &x : Y[a][b])
              x = 0;
          }
        }
    }
  }
  else if (kind == 2 && n >= 3)
  { // O(2) symmetry between the last two fields, whose vev vanishes
    c.label("O(2) symmetric");
    std::size_t p = n - 2, q = n - 1;
    // keep only invariants: 1, (p^2+q^2) times powers of the other fields
    auto cnt = [&](std::initializer_list<std::size_t> l) {
      int a = 0, b = 0;
      for (auto i : l)
      {
        a += i == p;
        b += i == q;
      }
      return std::make_pair(a, b);
    };
    for (std::size_t i = 0; i < n; i++)
    {
      for (std::size_t j = 0; j < n; j++)
      {
        auto [a, b] = cnt({i, j});
        if (a % 2 || b % 2) t->L2[i][j] = 0;
        for (std::size_t k = 0; k < n; k++)
        {
          auto [a, b] = cnt({i, j, k});
          if (a % 2 || b % 2) t->L3[i][j][k] = 0;
          for (std::size_t l = 0; l < n; l++)
          {
            auto [a, b] = cnt({i, j, k, l});
            if (a % 2 || b % 2) t->L4[i][j][k][l] = 0;
          }
        }
      }
      if (i == p || i == q) t->L1[i] = 0;
    }
    t->L2[q][q] = t->L2[p][p];
    for (std::size_t i = 0; i < p; i++)
    {
      sym3set(t->L3, i, q, q, t->L3[i][p][p]);
      for (std::size_t j = 0; j < p; j++)
        sym4set(t->L4, i, j, q, q, t->L4[i][j][p][p]);
    }
    double x = t->L4[p][p][p][p];
    sym4set(t->L4, q, q, q, q, x);
    sym4set(t->L4, p, p, q, q, x / 3);
  }
  t->install();
  return t;
}
static bool positiveSpectrum(const Toy &t, const Vec &v, double min)
{
  auto s = spectrum(t, v, 0);
  for (double x : s.H0)
    if (x < 100) return false;
  for (double x : s.G0)
    if (x < min) return false;
  for (double x : s.Q)
    if (x < min) return false;
  for (double x : s.L)
    if (x < min) return false;
  return true;
}
static void c05_first(Src &s, Ctx &c)
{
  auto t = weinToy(s, c, 4);
  Vec v  = genField(s, t->get_NHiggs(), 100);
  c.add("v", v);
  auto sp = spectrum(*t, v, 0);
  for (double x : sp.H0)
    if (x < 1) c.discard();
  c.nontrivial(maxabs(v) > 0);
  auto w  = weinberg(*t, v, 1);
  t->vev  = v;
  for (std::size_t k = 0; k < v.size(); k++)
  {
    double mag, x = dv1ref(*t, v, 0, k, &mag);
    c.close(w.d1[k], x, 1e-8, 1e-8 * mag + 1e-4, "first derivative along field " + str(k));
    c.close(w.d1[k], t->V1Loop(v, 0, k + 1), 1e-6, 1e-6 * mag + 2e-3,
            "first derivative against the derivative of the effective potential");
  }
}
// each order is the derivative of the previous one
static void c05_higher(Src &s, Ctx &c, int order)
{
  auto t = weinToy(s, c, order == 4 ? 2 : 3);
  Vec v  = genField(s, t->get_NHiggs(), 100);
  std::size_t n = v.size();
  if (n >= 3)
    for (std::size_t i = n - 2; i < n; i++)
      if (std::abs(t->L2[n - 1][n - 1] - t->L2[n - 2][n - 2]) < 1e-12) v[i] = 0;
  c.add("v", v).add("nH", n).add("order", order);
  double h = order == 4 ? 0.25 : 0.5;
  // keep away from zero masses: the difference quotient needs a smooth function
  if (!positiveSpectrum(*t, v, 1.0)) c.discard();
  auto pickd = [&](const Wein &w) -> const Vec & { return order == 2 ? w.d1 : order == 3 ? w.d2 : w.d3; };
  auto W     = weinberg(*t, v, order);
  const Vec &got = order == 2 ? W.d2 : order == 3 ? W.d3 : W.d4;
  std::size_t per = 1;
  for (int i = 1; i < order; i++)
    per *= n;
  c.check(got.size() == per * n, "size of the result");
  double scale = 0;
  for (double x : got)
    scale = std::max(scale, std::abs(x));
  bool any = false;
  for (std::size_t k = 0; k < n; k++)
  {
    Vec D[3];
    double hs[3] = {h, h / 2, h / 4};
    for (int q = 0; q < 3; q++)
    {
      Vec a = v, b = v;
      a[k] += hs[q];
      b[k] -= hs[q];
      auto wa = weinberg(*t, a, order - 1), wb = weinberg(*t, b, order - 1);
      D[q] = pickd(wa);
      for (std::size_t i = 0; i < per; i++)
        D[q][i] = (D[q][i] - pickd(wb)[i]) / (2 * hs[q]);
    }
    for (std::size_t i = 0; i < per; i++)
    {
      double r0 = (4 * D[1][i] - D[0][i]) / 3, r1 = (4 * D[2][i] - D[1][i]) / 3;
      double r = (16 * r1 - r0) / 15, err = std::abs(r1 - r0) + std::abs(r - r1);
      any      = any || std::abs(r) > 1e-6;
      c.close(got[i + per * k], r, 1e-5, 1e-5 * scale + 3 * err + 1e-8,
              "derivative of order " + str(order) + ", element " + str(i) + " along field " + str(k));
    }
  }
  c.nontrivial(any && n > 1);
}

// ------------------------------------------------------------------------ C07
static MP viable(Src &s, Ctx &c, Point &P, const std::vector<std::string> &names = realModels(), double spread = 0.3)
{
  std::string n = s.pick(names);
  P             = genPoint(s, n, spread);
  c.add("model", n).add("par", P.par);
  auto m = initPoint(P);
  if (!m) c.discard();
  c.label(n);
  return m;
}
static void c07_ct(Src &s, Ctx &c)
{
  Point P;
  MP m = viable(s, c, P);
  // an ambiguous Goldstone spectrum is not a generic point
  Vec v  = m->MinimizeOrderVEV(m->get_vevTreeMin());
  Vec w0 = m->get_vevTreeMin();
  bool rescaled = s.chance(40);
  if (rescaled)
  {
    double mu = s.logreal(80, 1000);
    m->resetScale(mu);
    c.add("scale", mu);
    c.check(m->get_scale() == mu, "renormalisation scale not taken over");
  }
  c.nontrivial(true);
  std::size_t N = m->get_NHiggs();
  auto W1 = m->WeinbergFirstDerivative();
  auto W2 = m->WeinbergSecondDerivativeAsMatrixXd();
  auto n  = m->NablaVCT(v);
  auto H  = m->HessianCT(v);
  double s1 = 1, s2 = 1e-2;
  for (double x : W1)
    s1 = std::max(s1, std::abs(x));
  s2 = std::max(s2, W2.cwiseAbs().maxCoeff());
  for (std::size_t i = 0; i < N; i++)
  {
    c.close(n(i), -W1[i], 0, 1e-6 * s1, "tadpole condition for field " + str(i) + " of " + P.name);
    for (std::size_t j = 0; j < N; j++)
    { // the one portal counterterm gives doublet-singlet mixings proportional to (vs, va)
      if (P.name == "cxsm" && std::min(i, j) == 3)
      {
        if (std::max(i, j) == 4 && (w0[1] == 0 || w0[2] != 0)) continue;
        if (std::max(i, j) == 5 && w0[2] == 0) continue;
      }
      c.close(H(i, j), -W2(i, j), 0, 1e-6 * s2,
              "mass condition for fields " + str(i) + "," + str(j) + " of " + P.name);
    }
  }
  for (double x : m->GetCTIdentities())
    c.close(x, 0, 0, 1e-5 * s2, "counterterm identity of " + P.name);
  // the loop plus counterterms leave the tree-level vacuum stationary
  for (std::size_t k = 0; k < N; k++)
  {
    double mag, x = dv1ref(*m, v, 0, k, &mag);
    double km, kk = ref::dV(ref::ct(*m), v, k, &km);
    c.close(kk, -x, 0, 1e-7 * (mag + km) + 1e-2, "stationarity of the one-loop vacuum along field " + str(k) + " of " + P.name);
    double tm, t = ref::dV(ref::tree(*m), v, k, &tm);
    c.close(t, 0, 0, 1e-8 * tm + 1e-2, "stationarity of the tree-level vacuum along field " + str(k) + " of " + P.name);
  }
}

// ------------------------------------------------------------------------ C08
static void c08_content(Src &s, Ctx &c)
{
  Point P;
  Vec ct;
  std::string n = s.pick(realModels());
  MP m          = quickModel(s, c, n, P, ct);
  c.label(n);
  c.nontrivial(true);
  const auto S  = GetSMConstants();
  std::size_t N = m->get_NHiggs();
  auto perm = [&](const ref::T &t, const char *what) {
    for (std::size_t i = 0; i < N; i++)
      for (std::size_t j = 0; j < N; j++)
      {
        c.check(t.a2[i][j] == t.a2[j][i], std::string(what) + ": second-order tensor not symmetric");
        for (std::size_t k = 0; k < N; k++)
        {
          double x = t.a3[i][j][k];
          c.check(x == t.a3[j][i][k] && x == t.a3[i][k][j], std::string(what) + ": third-order tensor not symmetric");
          for (std::size_t l = 0; l < N; l++)
          {
            double y = t.a4[i][j][k][l];
            c.check(y == t.a4[j][i][k][l] && y == t.a4[i][k][j][l] && y == t.a4[i][j][l][k],
                    std::string(what) + ": fourth-order tensor not symmetric");
          }
        }
      }
  };
  perm(ref::tree(*m), "tree level");
  perm(ref::ct(*m), "counterterm");
  auto &G = m->Get_Curvature_Gauge_G2H2();
  for (std::size_t a = 0; a < G.size(); a++)
    for (std::size_t b = 0; b < G.size(); b++)
      for (std::size_t i = 0; i < N; i++)
        for (std::size_t j = 0; j < N; j++)
          c.check(std::abs(G[a][b][i][j] - G[b][a][i][j]) < 1e-12 && std::abs(G[a][b][i][j] - G[a][b][j][i]) < 1e-12,
                  "gauge tensor not symmetric");
  for (int f = 0; f < 2; f++)
  {
    auto &Y = f ? m->Get_Curvature_Lepton_F2H1() : m->Get_Curvature_Quark_F2H1();
    for (std::size_t a = 0; a < Y.size(); a++)
      for (std::size_t b = 0; b < Y.size(); b++)
        for (std::size_t i = 0; i < N; i++)
          c.check(Y[a][b][i] == Y[b][a][i], "Yukawa tensor not symmetric");
  }
  Vec w = m->get_vevTreeMin();
  c.check(w.size() == m->get_nVEV(), "size of the tree-level vacuum");
  Vec v = m->MinimizeOrderVEV(w);
  c.close(m->EWSBVEV(v), S.C_vev0, 1e-9, 0, "electroweak VEV of the tree-level vacuum");
  double g2m = S.C_vev0 * S.C_vev0 / 4;
  // gauge bosons
  auto g = m->GaugeMassesSquared(v);
  c.check(g.size() == 4, "four electroweak gauge bosons");
  std::sort(g.begin(), g.end());
  c.close(g[0], 0, 0, 1e-4, "photon mass");
  c.close(g[1], std::pow(S.C_MassW, 2), 1e-9, 0, "W mass");
  c.close(g[2], std::pow(S.C_MassW, 2), 1e-9, 0, "W mass");
  c.close(g[3], std::pow(S.C_MassZ, 2), 1e-9, 0, "Z mass");
  c.close(g2m * S.C_g * S.C_g, std::pow(S.C_MassW, 2), 1e-9, 0, "relation of the coupling and the W mass");
  Vec q;
  for (double x : {S.C_MassUp, S.C_MassDown, S.C_MassStrange, S.C_MassCharm, S.C_MassBottom, S.C_MassTop})
  {
    q.push_back(x * x);
    q.push_back(x * x);
  }
  std::sort(q.begin(), q.end());
  auto gq = m->QuarkMassesSquared(v);
  std::sort(gq.begin(), gq.end());
  c.check(gq.size() == 12, "number of quark degrees of freedom");
  for (std::size_t i = 0; i < q.size(); i++)
    c.close(gq[i], q[i], 1e-9, 1e-9, "quark mass " + str(i));
  Vec l{0, 0, 0};
  for (double x : {S.C_MassElectron, S.C_MassMu, S.C_MassTau})
  {
    l.push_back(x * x);
    l.push_back(x * x);
  }
  auto gl = m->LeptonMassesSquared(v);
  std::sort(gl.begin(), gl.end());
  std::sort(l.begin(), l.end());
  c.check(gl.size() == 9, "number of lepton degrees of freedom");
  for (std::size_t i = 0; i < l.size(); i++)
    c.close(gl[i], l[i], 1e-9, 1e-9, "lepton mass " + str(i));
  // vacuum
  {
    for (std::size_t k = 0; k < N; k++)
    {
      double mag, x = ref::dV(ref::tree(*m), v, k, &mag);
      c.close(x, 0, 0, 1e-9 * mag + 1e-2, "stationarity of the tree-level vacuum along field " + str(k));
    }
  }
  // three Goldstone bosons
  auto h = m->HiggsMassesSquared(v);
  double hm = maxabs(h);
  int zero = 0;
  for (double x : h)
    zero += std::abs(x) < 1e-6 * hm + 1e-2;
  c.check(zero >= 3, "fewer than three Goldstone bosons: " + str(h));
  // EW vev ignores singlets, zeroing acts on doublets only
  Vec f = genField(s, N, 300);
  double e = 0;
  std::set<std::size_t> doublet;
  for (std::size_t i = 0; i < N; i++)
  {
    bool ew = false;
    for (std::size_t a = 0; a < 4; a++)
      ew = ew || G[a][a][i][i] != 0;
    if (ew)
    {
      doublet.insert(i);
      e += f[i] * f[i];
    }
  }
  c.check(doublet.size() % 4 == 0, "fields coupling to the gauge bosons do not fill doublets");
  e = std::sqrt(e);
  c.close(m->EWSBVEV(f), e <= 0.5 ? 0 : e, 1e-12, 0, "electroweak VEV");
  Vec small = f;
  for (auto &x : small)
    x *= 0.4 / std::max(1.0, e);
  c.check(m->EWSBVEV(small) == 0, "electroweak VEV below half a GeV is not reported as zero");
  auto order = m->Get_VevOrder();
  Vec zw     = genField(s, w.size(), 300), zo = zw;
  m->SetEWVEVZero(zw);
  for (std::size_t k = 0; k < order.size(); k++)
    c.check(zw[k] == (doublet.count(order[k]) ? 0 : zo[k]), "zeroing the electroweak VEVs: direction " + str(k));
  // NLO-VEV comparison: up to signs and within 1 GeV
  Vec nv = w;
  double worst = 0;
  for (std::size_t i = 0; i < nv.size(); i++)
  {
    double d = s.sym(1.5);
    nv[i]    = (s.boolean() ? -1 : 1) * (std::abs(nv[i]) + d);
    if (std::abs(w[i]) + d < 0) d = std::abs(std::abs(nv[i]) - std::abs(w[i]));
    worst = std::max(worst, std::abs(std::abs(nv[i]) - std::abs(w[i])));
  }
  if (std::abs(worst - 1) > 1e-6)
    c.check(m->CheckNLOVEV(nv) == (worst < 1), "NLO-VEV check for a deviation of " + str(worst));
}
// Yukawa types: with only one doublet VEV, exactly the fermions coupling to it get
// a mass, proportional to that VEV
static void c08_yukawa(Src &s, Ctx &c)
{
  Point P;
  Vec ct;
  std::string n = s.pick(std::vector<std::string>{"r2hdm", "c2hdm", "n2hdm", "cpinthedark"});
  MP m          = quickModel(s, c, n, P, ct);
  const auto S  = GetSMConstants();
  int type      = n == "r2hdm" ? P.par[7] : n == "c2hdm" ? P.par[8] : n == "n2hdm" ? P.par[11] : 0;
  double tb     = n == "r2hdm" ? P.par[6] : n == "c2hdm" ? P.par[7] : n == "n2hdm" ? P.par[8] : 0;
  c.label(n + " type " + str(type));
  c.nontrivial(true);
  double beta = std::atan(tb), v1 = S.C_vev0 * std::cos(beta), v2 = S.C_vev0 * std::sin(beta);
  int i1 = n == "n2hdm" ? 6 : 4, i2 = n == "n2hdm" ? 7 : 6;
  // doublet coupling to up quarks, down quarks, leptons
  int up = 2, dn = (type == 2 || type == 4) ? 1 : 2, le = (type == 2 || type == 3) ? 1 : 2;
  if (n == "cpinthedark")
  {
    up = dn = le = 1;
    v1           = S.C_vev0;
    v2           = 1; // inert
  }
  double w1 = s.sym(300), w2 = s.sym(300), ph = s.real(0, 2 * M_PI);
  // complex neutral VEVs: the mass depends on the modulus
  Vec f(m->get_NHiggs(), 0);
  int j1 = n == "n2hdm" ? 4 : 5, j2 = n == "n2hdm" ? 5 : 7;
  f[i1] = w1 * std::cos(ph);
  f[j1] = w1 * std::sin(ph);
  double ph2 = s.real(0, 2 * M_PI);
  f[i2]      = w2 * std::cos(ph2);
  f[j2]      = w2 * std::sin(ph2);
  c.add("w", Vec{w1, w2}).add("type", type).add("tan beta", tb);
  auto mass = [&](double m0, int d) { return std::pow(d == 1 ? m0 * w1 / v1 : m0 * w2 / v2, 2); };
  Vec q, l{0, 0, 0};
  for (double x : {S.C_MassUp, S.C_MassCharm, S.C_MassTop})
    q.insert(q.end(), 2, mass(x, up));
  for (double x : {S.C_MassDown, S.C_MassStrange, S.C_MassBottom})
    q.insert(q.end(), 2, mass(x, dn));
  for (double x : {S.C_MassElectron, S.C_MassMu, S.C_MassTau})
    l.insert(l.end(), 2, mass(x, le));
  std::sort(q.begin(), q.end());
  std::sort(l.begin(), l.end());
  auto gq = m->QuarkMassesSquared(f), gl = m->LeptonMassesSquared(f);
  std::sort(gq.begin(), gq.end());
  std::sort(gl.begin(), gl.end());
  cmp(c, gq, q, 1e-11, 1e-8, "quark masses of " + n + " type " + str(type));
  cmp(c, gl, l, 1e-11, 1e-8, "lepton masses of " + n + " type " + str(type));
  for (std::size_t i = 0; i < q.size(); i++)
    c.close(gq[i], q[i], 1e-6, 1e-10 * maxabs(q) + 1e-8, "quark mass " + str(i) + " of " + n + " type " + str(type));
  for (std::size_t i = 0; i < l.size(); i++)
    c.close(gl[i], l[i], 1e-6, 1e-10 * maxabs(l) + 1e-8, "lepton mass " + str(i) + " of " + n + " type " + str(type));
}
// the CKM mixing is unitary: charged-current Yukawa couplings carry the same norm
static void c08_ckm(Src &s, Ctx &c)
{
  const auto S = GetSMConstants();
  std::vector<std::vector<C>> V{{S.C_Vud, S.C_Vus, S.C_Vub}, {S.C_Vcd, S.C_Vcs, S.C_Vcb}, {S.C_Vtd, S.C_Vts, S.C_Vtb}};
  int i = s.below(3), j = s.below(3);
  C x = 0, y = 0;
  for (int k = 0; k < 3; k++)
  {
    x += V[i][k] * std::conj(V[j][k]);
    y += std::conj(V[k][i]) * V[k][j];
  }
  c.add("rows", std::vector<int>{i, j});
  c.nontrivial(i != j);
  c.close(std::abs(x - C(i == j)), 0, 0, 1e-12, "unitarity of the CKM rows");
  c.close(std::abs(y - C(i == j)), 0, 0, 1e-12, "unitarity of the CKM columns");
}

// ------------------------------------------------------------------------ C09
static std::string firstDiff(const std::string &a, const std::string &b)
{
  std::istringstream A(a), B(b);
  std::string x, y;
  for (int i = 0; std::getline(A, x, ',') && std::getline(B, y, ','); i++)
    if (x != y) return "entry " + str(i) + ": " + str(strtod(x.c_str(), 0)) + " instead of " + str(strtod(y.c_str(), 0));
  return "length";
}
static std::string digest(Class_Potential_Origin &m, const Vec &f, double T, bool loop)
{
  std::ostringstream o;
  o << std::hexfloat;
  auto put = [&](double x) { o << x << ","; };
  std::size_t N = m.get_NHiggs();
  put(m.get_scale());
  for (double x : m.get_vevTreeMin())
    put(x);
  put(m.VTree(f, 0, true));
  put(m.VTree(m.MinimizeOrderVEV(Vec(m.get_nVEV(), 37.5))));
  put(m.CounterTerm(f, 0, true));
  put(m.CounterTerm(m.MinimizeOrderVEV(Vec(m.get_nVEV(), 37.5))));
  put(m.V1Loop(f, T, 0));
  for (double x : m.HiggsMassesSquared(f, T))
    put(x);
  for (double x : m.GaugeMassesSquared(f, T))
    put(x);
  for (double x : m.QuarkMassesSquared(f))
    put(x);
  for (double x : m.LeptonMassesSquared(f))
    put(x);
  if (loop)
  {
    for (double x : m.get_parCTStored())
      put(x);
    for (double x : m.get_parStored())
      put(x);
    for (double x : m.WeinbergFirstDerivative())
      put(x);
    m.Prepare_Triple();
    m.TripleHiggsCouplings();
    for (std::size_t i = 0; i < N; i++)
      for (std::size_t j = i; j < N; j++)
        for (std::size_t k = j; k < N; k++)
        {
          put(m.get_TripleHiggsCorrectionsTreePhysical(i, j, k));
          put(m.get_TripleHiggsCorrectionsCTPhysical(i, j, k));
        }
  }
  return o.str();
}
// A history of reconfigurations of one object; afterwards it must answer exactly
// like a fresh object configured with the last step only
static void c09_history(Src &s, Ctx &c)
{
  std::string n = s.pick(realModels());
  auto m        = fresh(n);
  Vec f         = genField(s, m->get_NHiggs(), 300);
  double T      = s.logreal(5, 300);
  int steps     = s.integer(2, 5);
  std::vector<std::string> log;
  std::vector<Point> pts;
  auto pt = [&]() {
    for (int k = 0; k < 4; k++)
    {
      Point p = genPoint(s, n);
      if (initPoint(p)) return p;
    }
    c.discard();
    return Point();
  };
  Point last;
  Vec lastct;
  int mode    = 0;
  double mu   = 0;
  Vec ct2; // counterterms set after everything else
  auto config = [&](Class_Potential_Origin &o, int mode, const Point &p, const Vec &ct, double mu, const Vec &ct2) {
    if (mode == 0)
      o.initModel(p.par);
    else if (mode == 1)
      o.initModel(p.line);
    else
      o.set_All(p.par, ct);
    if (mu > 0) o.resetScale(mu);
    if (!ct2.empty()) o.set_CT_Pot_Par(ct2);
  };
  for (int i = 0; i < steps; i++)
  {
    int op = s.integer(0, 6);
    if (i == 0 && op > 2) op = 0;
    if (op <= 2)
    {
      last   = pt();
      mode   = op;
      lastct = s.vec(m->get_nParCT(), 5);
      mu     = 0;
      ct2.clear();
      config(*m, mode, last, lastct, 0, ct2);
      log.push_back(op == 0 ? "initModel(parameters)" : op == 1 ? "initModel(line)" : "set_All");
    }
    else if ((op == 3 || op == 4) && mode != 2)
    { // also to the scale already set
      mu = s.chance(40) ? m->get_scale() : s.logreal(80, 800);
      ct2.clear();
      m->resetScale(mu);
      log.push_back("resetScale");
    }
    else if (op == 5)
    {
      ct2 = s.vec(m->get_nParCT(), 5);
      m->set_CT_Pot_Par(ct2);
      log.push_back("set_CT_Pot_Par");
    }
    else
    { // queries must not change anything
      Vec g = genField(s, m->get_NHiggs(), 300);
      double U = s.logreal(1, 300);
      m->VEff(g, U);
      m->VEff(g, U, 1);
      m->HiggsMassesSquared(g, U, 1);
      m->SetUseTreeLevel(true);
      m->VEff(g, U);
      m->SetUseTreeLevel(false);
      m->setUseIndexCol("a\tb");
      if (mode != 2)
      {
        m->Prepare_Triple();
        m->TripleHiggsCouplings();
        m->GetCTIdentities();
        m->calc_CT();
      }
      m->CalculateDebyeGauge();
      log.push_back("queries");
    }
  }
  c.add("model", n).add("history", str(log)).add("par", last.par);
  c.label(n);
  c.nontrivial(log.size() > 1);
  auto o = fresh(n);
  config(*o, mode, last, lastct, mu, ct2);
  auto dm = digest(*m, f, T, mode != 2), dn = digest(*o, f, T, mode != 2);
  c.check(dm == dn, "a reused " + n + " object answers differently from a fresh one after " + str(log) + ", " + firstDiff(dm, dn));
}
// reading a line and setting the parameters directly agree; so do two objects alive
// at the same time
static void c09_line(Src &s, Ctx &c)
{
  std::string n = s.pick(realModels());
  Point a = genPoint(s, n), b = genPoint(s, n);
  auto A = initPoint(a), B = initPoint(b);
  if (!A || !B) c.discard();
  c.add("model", n).add("line", a.line);
  c.label(n);
  c.nontrivial(a.par != b.par);
  Vec f    = genField(s, A->get_NHiggs(), 300);
  double T = s.logreal(5, 300);
  auto da = digest(*A, f, T, true), db = digest(*B, f, T, true);
  auto L     = fresh(n);
  bool index = s.boolean();
  // the header decides whether the line starts with an index
  std::string h = index ? std::string("\tfoo") : std::string("foo\tbar");
  L->setUseIndexCol(h);
  c.check(L->getUseIndexCol() == index, "recognition of an index column in the header");
  auto [par, ct] = L->initModel((index ? "17\t" : "") + a.line + (s.boolean() ? "\t1\t2\t3" : ""));
  c.check(ct.size() == L->get_nParCT() && par.size() == L->get_nPar(), "sizes of the returned parameters");
  if (n != "cxsm" && n != "sm" && n != "cpinthedark")
    for (std::size_t i = 0; i < par.size(); i++)
      c.close(par[i], a.par[i], 1e-12, 0, "parameter " + str(i) + " read from a line of " + n);
  c.check(digest(*L, f, T, true) == da, "input line and parameter vector give different " + n + " models");
  c.check(digest(*B, f, T, true) == db, "a second object was affected");
  c.check(digest(*A, f, T, true) == da, "repeated evaluation differs");
}

// ------------------------------------------------------------------------ C10
struct Doublet
{
  int ur, ui, lr, li;
};
static const std::map<std::string, std::vector<Doublet>> doublets{
    {"sm", {{0, 1, 2, 3}}},
    {"cxsm", {{0, 1, 3, 2}}},
    {"r2hdm", {{0, 1, 4, 5}, {2, 3, 6, 7}}},
    {"c2hdm", {{0, 1, 4, 5}, {2, 3, 6, 7}}},
    {"n2hdm", {{0, 2, 6, 4}, {1, 3, 7, 5}}},
    {"cpinthedark", {{0, 1, 4, 5}, {2, 3, 6, 7}}}};
static void sameSpectrum(Ctx &c, Class_Potential_Origin &a, const Vec &f, Class_Potential_Origin &b, const Vec &g, double T,
                         const std::string &what, bool fermions = true)
{
  double mag;
  double x = ref::V(ref::tree(a), f, &mag), ctmag;
  ref::V(ref::ct(a), f, &ctmag);
  c.close(b.VTree(g, 0, true), a.VTree(f, 0, true), 1e-11, 1e-11 * mag, "tree-level potential under " + what);
  (void)x;
  cmp(c, b.HiggsMassesSquared(g), a.HiggsMassesSquared(f), 1e-10, 3e-5, "scalar masses under " + what);
  cmp(c, b.GaugeMassesSquared(g), a.GaugeMassesSquared(f), 1e-10, 3e-5, "gauge boson masses under " + what);
  // the thermal masses keep the symmetry; coefficients below 1e-5 are dropped
  cmp(c, b.HiggsMassesSquared(g, T), a.HiggsMassesSquared(f, T), 1e-10, 3e-5 + 1e-4 * T * T,
      "thermal scalar masses under " + what);
  cmp(c, b.GaugeMassesSquared(g, T), a.GaugeMassesSquared(f, T), 1e-10, 3e-5, "thermal gauge boson masses under " + what);
  if (!fermions) return;
  cmp(c, b.QuarkMassesSquared(g), a.QuarkMassesSquared(f), 1e-10, 1e-8, "quark masses under " + what);
  cmp(c, b.LeptonMassesSquared(g), a.LeptonMassesSquared(f), 1e-10, 1e-8, "lepton masses under " + what);
  double va = a.V1Loop(f, 0, 0), vb = b.V1Loop(g, 0, 0), m2 = 0;
  for (double q : a.HiggsMassesSquared(f))
    m2 += q * q;
  for (double q : a.GaugeMassesSquared(f))
    m2 += q * q;
  for (double q : a.QuarkMassesSquared(f))
    m2 += q * q;
  c.close(vb, va, 1e-9, 1e-9 * m2 + 1e-2, "one-loop potential under " + what);
  va = a.V1Loop(f, T, 0), vb = b.V1Loop(g, T, 0);
  // dropped Debye coefficients and the 2e-3 steps of the tabulated thermal functions at m^2 = 0
  c.close(vb, va, 1e-7, 1e-9 * m2 + 1e-4 * std::pow(T, 4) + 1e-2, "thermal one-loop potential under " + what);
}
static void c10_gauge(Src &s, Ctx &c)
{
  Point P;
  Vec ct;
  std::string n = s.pick(realModels());
  MP m          = quickModel(s, c, n, P, ct);
  c.label(n);
  Vec f = genField(s, m->get_NHiggs(), 300), g = f;
  double T  = s.logreal(5, 300);
  double th = s.real(0, M_PI), ph = s.real(0, 2 * M_PI), ps = s.real(0, 2 * M_PI), al = s.real(0, 2 * M_PI);
  int kind  = s.integer(0, 2);
  if (kind == 1) th = 0, ph = ps = 0;      // hypercharge only
  if (kind == 2) th = 0, ph = ps = al;     // electromagnetic
  C A = std::cos(th) * std::polar(1.0, ph), B = std::sin(th) * std::polar(1.0, ps), e = std::polar(1.0, al);
  for (auto &d : doublets.at(n))
  {
    C u(f[d.ur], f[d.ui]), l(f[d.lr], f[d.li]);
    C u2 = e * (A * u + B * l), l2 = e * (-std::conj(B) * u + std::conj(A) * l);
    g[d.ur] = u2.real(), g[d.ui] = u2.imag(), g[d.lr] = l2.real(), g[d.li] = l2.imag();
  }
  c.add("fields", f).add("rotated", g).add("T", T);
  double diff = 0;
  for (std::size_t i = 0; i < f.size(); i++)
    diff += std::abs(f[i] - g[i]);
  c.nontrivial(diff > 1);
  sameSpectrum(c, *m, f, *m, g, T, "a gauge rotation of the " + n + " fields");
}
// discrete symmetries and basis changes
static void c10_discrete(Src &s, Ctx &c)
{
  Point P;
  Vec ct;
  std::string n = s.pick(realModels());
  MP m          = quickModel(s, c, n, P, ct, 0);
  MP o          = m;
  Vec f = genField(s, m->get_NHiggs(), 300), g = f;
  double T = s.logreal(5, 300);
  std::string what;
  bool fermions = true;
  auto neg = [&](std::vector<int> ix) {
    for (int i : ix)
      g[i] = -g[i];
  };
  auto setup = [&](Vec par) {
    o = fresh(n);
    o->set_All(par, Vec(o->get_nParCT(), 0));
  };
  int kind = s.integer(0, 1);
  if (n == "n2hdm")
  {
    if (kind == 0)
    {
      what = "S -> -S";
      neg({8});
    }
    else
    { // Phi2 -> -Phi2 with m12^2 -> -m12^2; tan beta -> -tan beta is not implemented,
      // so compare at tree level through the CP conjugation instead
      what     = "CP conjugation";
      fermions = false;
      neg({2, 3, 4, 5});
    }
  }
  else if (n == "cpinthedark")
  {
    what = "(Phi2, S) -> -(Phi2, S)";
    neg({2, 3, 6, 7, 8});
  }
  else if (n == "r2hdm" && kind == 0)
  {
    what    = "Phi2 -> -Phi2, m12^2 -> -m12^2, tan(beta) -> -tan(beta)";
    Vec p   = P.par;
    p[5]    = -p[5];
    p[6]    = -p[6];
    setup(p);
    neg({2, 3, 6, 7});
  }
  else if (n == "r2hdm" || n == "sm")
  {
    what     = "CP conjugation";
    fermions = false;
    if (n == "sm")
      neg({1, 3});
    else
      neg({1, 3, 5, 7});
  }
  else if (n == "c2hdm")
  { // CP conjugation of fields and couplings
    what     = "CP conjugation with Im(lambda5) -> -Im(lambda5)";
    fermions = false;
    Vec p    = P.par;
    p[5]     = -p[5];
    setup(p);
    neg({1, 3, 5, 7});
  }
  else
  { // CxSM: the imaginary singlet with imaginary parameters reversed
    what  = "A -> -A with va, Im(a1), Im(b1) reversed";
    Vec p = P.par;
    p[2]  = -p[2];
    p[9]  = -p[9];
    p[11] = -p[11];
    setup(p);
    neg({5});
  }
  c.add("fields", f).add("symmetry", what).add("T", T);
  c.label(n + ": " + what);
  c.nontrivial(f != g);
  sameSpectrum(c, *m, f, *o, g, T, what + " in " + n, fermions);
}
// With the renormalisation done, the full effective potential is invariant under what
// the vacuum choice leaves unbroken
static void c10_full(Src &s, Ctx &c)
{
  Point P;
  MP m          = viable(s, c, P);
  std::string n = P.name;
  Vec f = genField(s, m->get_NHiggs(), 250), g = f;
  double T = s.chance(30) ? 0 : s.logreal(5, 250);
  // electromagnetic rotation: upper components only
  double al = s.real(0, 2 * M_PI);
  for (auto &d : doublets.at(n))
  {
    C u = C(f[d.ur], f[d.ui]) * std::polar(1.0, al);
    g[d.ur] = u.real(), g[d.ui] = u.imag();
  }
  if (n == "n2hdm" && s.boolean()) g[8] = -g[8];
  c.add("fields", f).add("T", T).add("angle", al);
  c.nontrivial(f != g);
  double mag;
  ref::V(ref::ct(*m), f, &mag);
  // tadpole counterterms that vanish analytically come out at the level of rounding
  c.close(m->CounterTerm(g, 0, true), m->CounterTerm(f, 0, true), 1e-9, 1e-7 * mag + 1, "counterterm potential of " + n);
  auto full = [&](const Vec &x) { return m->VTree(x, 0, true) + m->CounterTerm(x, 0, true) + m->V1Loop(x, T, 0); };
  double a = full(f), b = full(g);
  c.close(b, a, 1e-7, 1e-7 * mag + 1e-4 * std::pow(T, 4) + 10, "effective potential of " + n + " under an unbroken rotation");
}

// ------------------------------------------------------------------------ C11
struct Group
{
  std::string name;
  std::vector<int> slots; // positions in the coupling arrays
  Eigen::MatrixXd P;      // projector on the states in the field basis
};
static void c11_couplings(Src &s, Ctx &c)
{
  Point P;
  MP m          = viable(s, c, P);
  std::string n = P.name;
  std::size_t N = m->get_NHiggs();
  Vec v         = m->MinimizeOrderVEV(m->get_vevTreeMin());
  Eigen::MatrixXd M = ref::ddV(ref::tree(*m), v);
  Eigen::SelfAdjointEigenSolver<Eigen::MatrixXd> es(M);
  // blocks of fields
  std::map<std::string, std::vector<int>> charged{{"r2hdm", {0, 1, 2, 3}}, {"c2hdm", {0, 1, 2, 3}},
                                                  {"n2hdm", {0, 1, 2, 3}}, {"cpinthedark", {0, 1, 2, 3}}};
  std::map<std::string, std::vector<int>> pseudo{{"r2hdm", {5, 7}}, {"n2hdm", {4, 5}}};
  auto weight = [&](int e, const std::vector<int> &b) {
    double w = 0;
    for (int i : b)
      w += std::pow(es.eigenvectors()(i, e), 2);
    return w;
  };
  double mm = es.eigenvalues().cwiseAbs().maxCoeff();
  std::vector<int> gold, ch, ps, nt;
  for (int e = 0; e < (int)N; e++)
  {
    double x = es.eigenvalues()(e);
    if (std::abs(x) < 1e-7 * mm + 1e-3)
      gold.push_back(e);
    else if (x < 100)
      c.discard();
    else if (charged.count(n) && weight(e, charged[n]) > 0.5)
      ch.push_back(e);
    else if (pseudo.count(n) && weight(e, pseudo[n]) > 0.5)
      ps.push_back(e);
    else
      nt.push_back(e);
  }
  for (int e = 0; e < (int)N; e++) // (near-)degenerate particles have no defined couplings
    for (int f = 0; f < e; f++)
    {
      bool sg = std::count(gold.begin(), gold.end(), e) && std::count(gold.begin(), gold.end(), f);
      bool sc = std::count(ch.begin(), ch.end(), e) && std::count(ch.begin(), ch.end(), f);
      if (!sg && !sc && std::abs(es.eigenvalues()(e) - es.eigenvalues()(f)) < 1e-5 * mm) c.discard();
    }
  if (gold.size() != 3) c.discard();
  std::vector<Group> G;
  auto proj = [&](const std::vector<int> &es_) {
    Eigen::MatrixXd p = Eigen::MatrixXd::Zero(N, N);
    for (int e : es_)
      p += es.eigenvectors().col(e) * es.eigenvectors().col(e).transpose();
    return p;
  };
  auto one = [&](const std::string &nm, int slot, int e) { G.push_back({nm, {slot}, proj({e})}); };
  if (n == "sm")
  {
    G.push_back({"G", {0, 1, 2}, proj(gold)});
    c.check(nt.size() == 1, "one physical scalar in the SM");
    one("H", 3, nt[0]);
  }
  else if (n == "cxsm")
  {
    G.push_back({"G", {0, 1, 2}, proj(gold)});
    c.check(nt.size() == 3, "three physical scalars in the CxSM");
    for (int i = 0; i < 3; i++)
      one("h" + str(i + 1), 3 + i, nt[i]);
  }
  else
  {
    c.check(ch.size() == 2, "one charged scalar pair");
    G.push_back({"G", {0, 1, n == "cpinthedark" ? 5 : 4}, proj(gold)});
    G.push_back({"H+-", {2, 3}, proj(ch)});
    if (n == "r2hdm")
    {
      c.check(ps.size() == 1 && nt.size() == 2, "particle content");
      one("A", 5, ps[0]);
      one("h", 6, nt[0]);
      one("H", 7, nt[1]);
    }
    else if (n == "c2hdm")
    {
      c.check(nt.size() == 3, "particle content");
      for (int i = 0; i < 3; i++)
        one("h" + str(i + 1), 5 + i, nt[i]);
    }
    else if (n == "n2hdm")
    {
      c.check(ps.size() == 1 && nt.size() == 3, "particle content");
      one("A", 5, ps[0]);
      std::vector<int> order = nt;
      int sm                 = -1;
      for (int i = 0; i < 3; i++)
      {
        double ms = std::sqrt(es.eigenvalues()(nt[i]));
        if (ms > 124 && ms < 126) sm = i;
      }
      if (sm >= 0)
      {
        order.erase(order.begin() + sm);
        order.insert(order.begin(), nt[sm]);
      }
      c.label(sm >= 0 ? "SM-like scalar" : "no SM-like scalar");
      for (int i = 0; i < 3; i++)
        one("h" + str(i + 1), 6 + i, order[i]);
    }
    else
    {
      std::vector<int> rest;
      for (int e : nt)
        if (weight(e, {4}) > 0.5)
          one("hSM", 4, e);
        else
          rest.push_back(e);
      c.check(rest.size() == 3, "particle content");
      for (int i = 0; i < 3; i++)
        one("h" + str(i + 1), 6 + i, rest[i]);
    }
  }
  c.nontrivial(true);
  m->Prepare_Triple();
  m->TripleHiggsCouplings();
  auto K = ref::ct(*m), L = ref::tree(*m);
  auto W = m->WeinbergThirdDerivative();
  c.check(W.size() == N * N * N, "size of the third derivative");
  typedef std::vector<std::vector<Vec>> T3;
  auto third = [&](const ref::T &t) {
    T3 r = t.a3;
    for (std::size_t i = 0; i < N; i++)
      for (std::size_t j = 0; j < N; j++)
        for (std::size_t k = 0; k < N; k++)
          for (std::size_t l = 0; l < N; l++)
            r[i][j][k] += t.a4[i][j][k][l] * v[l];
    return r;
  };
  T3 A[3] = {third(L), third(K), L.a3};
  for (std::size_t i = 0; i < N; i++)
    for (std::size_t j = 0; j < N; j++)
      for (std::size_t k = 0; k < N; k++)
        A[2][i][j][k] = W[i + j * N + k * N * N];
  for (int q = 0; q < 3; q++)
  {
    const char *what[3] = {"tree-level", "counterterm", "loop"};
    auto get = [&](int i, int j, int k) {
      return q == 0   ? m->get_TripleHiggsCorrectionsTreePhysical(i, j, k)
             : q == 1 ? m->get_TripleHiggsCorrectionsCTPhysical(i, j, k)
                      : m->get_TripleHiggsCorrectionsCWPhysical(i, j, k);
    };
    double norm = 0;
    for (auto &a : A[q])
      for (auto &b : a)
        for (double x : b)
          norm += x * x;
    for (auto &a : G)
    {
      // contract one index after the other
      T3 X(N, std::vector<Vec>(N, Vec(N, 0)));
      for (std::size_t i = 0; i < N; i++)
        for (std::size_t l = 0; l < N; l++)
          if (a.P(i, l) != 0)
            for (std::size_t j = 0; j < N; j++)
              for (std::size_t k = 0; k < N; k++)
                X[i][j][k] += a.P(i, l) * A[q][l][j][k];
      for (auto &b : G)
      {
        T3 Y(N, std::vector<Vec>(N, Vec(N, 0)));
        for (std::size_t j = 0; j < N; j++)
          for (std::size_t l = 0; l < N; l++)
            if (b.P(j, l) != 0)
              for (std::size_t i = 0; i < N; i++)
                for (std::size_t k = 0; k < N; k++)
                  Y[i][j][k] += b.P(j, l) * X[i][l][k];
        for (auto &d : G)
        {
          double ref_ = 0, got = 0;
          for (std::size_t i = 0; i < N; i++)
            for (std::size_t j = 0; j < N; j++)
              for (std::size_t k = 0; k < N; k++)
                for (std::size_t l = 0; l < N; l++)
                  ref_ += A[q][i][j][l] * d.P(l, k) * Y[i][j][k];
          for (int i : a.slots)
            for (int j : b.slots)
              for (int k : d.slots)
                got += std::pow(get(i, j, k), 2);
          c.close(got, ref_, 1e-6, 1e-7 * norm + 1e-6,
                  std::string("sum of squared ") + what[q] + " couplings of " + a.name + " " + b.name + " " + d.name +
                      " in " + n);
        }
      }
    }
  }
  // labels: every combination once, in the order i <= j <= k
  auto leg = m->addLegendTripleCouplings();
  c.check(leg.size() == 3 * N * (N + 1) * (N + 2) / 6 + 0 || leg.size() % 3 == 0, "number of coupling labels");
  std::set<std::string> uniq(leg.begin(), leg.end());
  c.check(uniq.size() == leg.size(), "coupling labels of " + n + " repeat");
}

// the kernels are divided differences of x ln(x / mu^2); a double zero mass uses
// ln 0 -> 0, as the infrared divergence is dropped
static void c05_kernels(Src &s, Ctx &c)
{
  auto t = fresh("sm");
  t->scale = s.logreal(10, 1000);
  int n = s.integer(2, 4);
  Vec pool{0};
  for (int i = 0; i < 4; i++)
  { // well separated
    double x;
    bool ok;
    int tries = 0;
    do
    {
      x  = std::pow(s.logreal(1, 1000), 2);
      ok = true;
      for (double y : pool)
        ok &= y == 0 || std::abs(x / y - 1) > 0.05;
    } while (!ok && ++tries < 50);
    if (!ok) c.discard();
    pool.push_back(x);
  }
  Vec m;
  for (int i = 0; i < n; i++)
    m.push_back(pool[s.below(5)]);
  int zeros = std::count(m.begin(), m.end(), 0.0);
  c.add("masses squared", m).add("scale", t->scale);
  c.nontrivial(zeros < n);
  if (zeros > 2) c.discard();
  Vec q = m;
  std::sort(q.begin(), q.end());
  std::map<double, int> mult;
  for (double x : q)
    mult[x]++;
  std::string pat;
  for (auto &e : mult)
    pat += (e.first == 0 ? "0" : "m") + str(e.second);
  c.label(pat);
  // confluent divided differences in extended precision
  long double mu2 = (long double)t->scale * t->scale;
  auto g          = [&](long double x, int d) -> long double {
    if (d == 0) return x == 0 ? 0 : x * logl(x / mu2);
    if (d == 1) return x == 0 ? 1 : logl(x / mu2) + 1;
    if (d == 2) return 1 / x / 2;
    return -1 / (x * x) / 6;
  };
  std::function<long double(int, int)> dd = [&](int a, int b) -> long double {
    if (q[a] == q[b]) return g(q[a], b - a);
    return (dd(a + 1, b) - dd(a, b - 1)) / ((long double)q[b] - q[a]);
  };
  double e = (double)dd(0, n - 1);
  double got = n == 2 ? t->fbase(m[0], m[1]) : n == 3 ? t->fbaseTri(m[0], m[1], m[2]) : t->fbaseFour(m[0], m[1], m[2], m[3]);
  double big = q.back(), lowest = big;
  for (double x : q)
    if (x > 0) lowest = std::min(lowest, x);
  c.close(got, e, 1e-7, n == 2 ? 1e-9 : n == 3 ? 1e-9 / lowest : 1e-7 / lowest / lowest, "kernel of " + str(n) + " masses");
}

int main(int argc, char **argv)
{
  using pbt::Property;
  using pbt::Sub;
  std::vector<Property> P;
  auto add = [&](const std::string &id, std::vector<Sub> subs, std::vector<std::string> as = {}) {
    P.push_back({id, subs, as, nullptr});
  };
  add("C01", {{"tensors", 60000, 1500000, c01_toy, "more than one field and a non-zero field point."},
              {"vev-space", 30000, 800000, c01_embed, "non-zero VEV, fewer VEVs than fields."},
              {"closed-formulas", 30000, 600000, c01_closed, "non-zero field point."},
              {"counterterm-operators", 8000, 100000, c01_ctops, "at least one coupling shifted."},
              {"counterterm-linearity", 20000, 400000, c01_ctlinear, "non-zero field point."}},
      {"Field magnitudes up to 400 GeV; couplings up to a few."});
  add("C02", {{"tensors", 60000, 1000000, c02_toy, "non-zero fields and temperature."},
              {"models", 15000, 300000, c02_real, "non-zero fields and temperature."}});
  add("C03", {{"formula", 40000, 600000, c03_formula, "non-zero temperature and field."},
              {"scale", 30000, 600000, c03_scale, "the scale changes."},
              {"limits", 30000, 600000, c03_limits, "non-zero field."}});
  add("C04", {{"field", 30000, 500000, c04_field, "non-zero field."},
              {"temperature", 8000, 150000, c04_temperature, "non-zero temperature."},
              {"masses", 40000, 600000, c04_masses, "non-zero field."},
              {"eigenvalues", 60000, 1000000, c04_eigen, "matrix of dimension two or more."},
              {"second", 20000, 300000, c04_second, "matrix of dimension two or more."}});
  add("C05", {{"kernels", 600000, 10000000, c05_kernels, "at least one massive state."},
              {"first", 30000, 400000, c05_first, "more than one field."},
              {"second", 6000, 100000, [](Src &s, Ctx &c) { c05_higher(s, c, 2); }, "more than one field, non-zero derivative."},
              {"third", 5000, 80000, [](Src &s, Ctx &c) { c05_higher(s, c, 3); }, "more than one field, non-zero derivative."},
              {"fourth", 4000, 50000, [](Src &s, Ctx &c) { c05_higher(s, c, 4); }, "more than one field, non-zero derivative."}});
  add("C07", {{"conditions", 1500, 40000, c07_ct, "a point without tachyons at tree level."}});
  add("C08", {{"content", 20000, 400000, c08_content, "always."},
              {"yukawa-types", 30000, 500000, c08_yukawa, "always."},
              {"mixing", 20, 100, c08_ckm, "different rows or columns."}});
  add("C09", {{"history", 240, 10000, c09_history, "at least two operations."},
              {"line", 240, 8000, c09_line, "two different points."}});
  add("C10", {{"gauge", 20000, 400000, c10_gauge, "the rotation moves the field."},
              {"discrete", 20000, 400000, c10_discrete, "the transformation moves the field."},
              {"renormalised", 1000, 30000, c10_full, "the rotation moves the field."}});
  add("C11", {{"couplings", 500, 15000, c11_couplings, "a point without tachyons or degenerate particles."}});
  return pbt::main_(P, argc, argv);
}
