// C24: the output of the transition finder.
#include "land.hpp"
#include <BSMPT/gravitational_waves/gw.h>
#include <BSMPT/transition_tracer/transition_tracer.h>

using namespace pbt;
using namespace BSMPT;
using Model = std::shared_ptr<Class_Potential_Origin>;
using ST    = StatusTemperature;

static bool same(double a, double b, double rel) { return (std::isnan(a) && std::isnan(b)) || a == b || std::abs(a - b) <= rel * std::max(std::abs(a), std::abs(b)); }

// one label for each value, in the order of the programs' output
static std::vector<std::string> labels(const Model &m, std::size_t pairs, bool gw)
{
  std::vector<std::string> r{"status_nlo_stability", "status_ewsr", "status_tracing", "status_coex_pairs", "runtime"};
  for (std::size_t i = 0; i < pairs; i++)
  {
    std::string n = "_" + std::to_string(i);
    auto vevs     = [&](const std::string &w) {
      for (std::string side : {"_false", "_true"})
        for (auto &l : m->addLegendVEV())
          r.push_back(l + "_" + w + side + n);
    };
    r.push_back("status_crit" + n), r.push_back("T_crit" + n), vevs("crit");
    r.push_back("status_bounce_sol" + n);
    for (std::string w : {"nucl_approx", "nucl", "perc", "compl"})
      r.push_back("status_" + w + n), r.push_back("T_" + w + n), vevs(w);
    if (gw)
      for (std::string w : {"status_gw", "trans_temp", "v_wall", "alpha_PT", "beta/H", "K_sw", "fpeak_sw", "h2OmegaPeak_sw", "SNR(LISA-3yrs)_sw", "K_turb", "fpeak_turb", "h2OmegaPeak_turb", "SNR(LISA-3yrs)_turb", "SNR(LISA-3yrs)"})
        r.push_back(w + n);
  }
  r.push_back("transition_history");
  return r;
}

// everything that does not depend on the kind of potential
static void consistent(Ctx &c, user_input in, TransitionTracer &t)
{
  auto &o = t.output_store;
  auto &st = o.status;
  std::size_t k = in.modelPointer->get_nVEV(), n = t.vec_coex.size();
  auto nan = [&](const Vec &v) {
    for (double x : v)
      if (!std::isnan(x)) return false;
    return v.size() == k;
  };
  bool ok = st.status_tracing == StatusTracing::Success && st.status_coex_pairs == StatusCoexPair::Success;
  auto want = labels(in.modelPointer, ok ? n : 0, in.gw_calculation);
  c.check(o.legend.size() == want.size(), std::to_string(o.legend.size()) + " labels for " + std::to_string(want.size()) + " values", "labels");
  for (std::size_t i = 0; i < want.size(); i++)
    c.check(o.legend[i] == want[i], "label " + o.legend[i] + " for the value " + want[i], "labels");
  c.check(in.nlo_check ? st.status_nlo_stability != StatusNLOStability::Off && st.status_nlo_stability != StatusNLOStability::NotSet : st.status_nlo_stability == StatusNLOStability::Off, "status of the stability", "status");
  bool stable = st.status_nlo_stability != StatusNLOStability::NoNLOStability;
  if (!stable)
  {
    c.check(st.status_ewsr == StatusEWSR::NotSet && st.status_tracing == StatusTracing::NotSet && st.status_coex_pairs == StatusCoexPair::NotSet && n == 0 && o.vec_trans_data.empty() && o.transition_history == "not_set", "an unstable point is followed", "status");
    return;
  }
  c.check(in.ewsr_check ? st.status_ewsr != StatusEWSR::Off && st.status_ewsr != StatusEWSR::NotSet : st.status_ewsr == StatusEWSR::Off, "status of the symmetry restoration", "status");
  bool out = (in.ewsr_check == 2 && st.status_ewsr != StatusEWSR::EWSymNonRes && st.status_ewsr != StatusEWSR::EWSymRes) || (in.ewsr_check == 3 && st.status_ewsr != StatusEWSR::EWSymRes);
  c.check(out == (st.status_tracing == StatusTracing::NotSet), out ? "the point should have been filtered out" : "the point has been filtered out", "filter");
  if (!ok)
  {
    c.check(o.vec_trans_data.empty() && o.vec_gw_data.empty() && st.status_crit.empty() && o.transition_history == "not_set", "values without success", "status");
    return;
  }
  c.check(o.num_coex_phase_pairs == n && o.vec_trans_data.size() == n && o.vec_gw_data.size() == n && st.status_crit.size() == n && st.status_bounce_sol.size() == n && st.status_nucl_approx.size() == n && st.status_nucl.size() == n && st.status_perc.size() == n && st.status_compl.size() == n,
          "one entry for each pair", "number");
  std::size_t bounces = 0;
  for (std::size_t i = 0; i < n; i++)
  {
    auto &p = t.vec_coex[i];
    auto &d = o.vec_trans_data[i];
    auto &g = o.vec_gw_data[i];
    c.check((std::size_t)p.coex_pair_id == i, "number of the pair", "number");
    c.check(st.status_crit[i] == p.crit_status, "status of the critical temperature", "status");
    auto at = [&](const char *w, double T, const Vec &f, const Vec &tr) {
      Vec a = p.false_phase.Get(T).point, b = p.true_phase.Get(T).point;
      c.check(f.size() == k && tr.size() == k, std::string(w) + ": dimension", "vev");
      for (std::size_t j = 0; j < k; j++)
        c.check(same(f[j], a[j], 1e-9) && same(tr[j], b[j], 1e-9), std::string(w) + ": minima " + str(f) + ", " + str(tr) + " in place of " + str(a) + ", " + str(b), "vev");
    };
    bool crit = p.crit_status == StatusCrit::Success || p.crit_status == StatusCrit::TrueLower;
    if (crit)
    {
      c.check(d.crit_temp.has_value() && *d.crit_temp == p.crit_temp && p.crit_temp >= p.T_low - 1e-6 && p.crit_temp <= p.T_high + 1e-6, "critical temperature", "crit");
      at("critical temperature", p.crit_temp, d.crit_false_vev, d.crit_true_vev);
    }
    else
      c.check(nan(d.crit_false_vev) && nan(d.crit_true_vev), "minima without a critical temperature", "vev");
    if (!crit)
    {
      c.check(st.status_bounce_sol[i] == StatusGW::NotSet && st.status_nucl[i] == ST::NaN && st.status_nucl_approx[i] == ST::NaN && st.status_perc[i] == ST::NaN && st.status_compl[i] == ST::NaN, "transition without a critical temperature", "status");
    }
    struct
    {
      const char *what;
      ST st;
      std::optional<double> T;
      Vec f, t;
    } R[4] = {{"approximate nucleation", st.status_nucl_approx[i], d.nucl_approx_temp, d.nucl_approx_false_vev, d.nucl_approx_true_vev},
              {"nucleation", st.status_nucl[i], d.nucl_temp, d.nucl_false_vev, d.nucl_true_vev},
              {"percolation", st.status_perc[i], d.perc_temp, d.perc_false_vev, d.perc_true_vev},
              {"completion", st.status_compl[i], d.compl_temp, d.compl_false_vev, d.compl_true_vev}};
    for (auto &r : R)
    {
      if (r.st == ST::Success)
      {
        c.check(r.T.has_value() && *r.T > 0 && *r.T <= p.crit_temp + 1e-9 && *r.T >= in.T_low - 1e-9, std::string(r.what) + " temperature outside of the range", "temperature");
        at(r.what, *r.T, r.f, r.t);
      }
      else
        c.check(!r.T.has_value() && nan(r.f) && nan(r.t), std::string(r.what) + ": values without success", "temperature");
    }
    if (R[2].st == ST::Success && R[3].st == ST::Success) c.check(*R[3].T <= *R[2].T * (1 + 1e-6) || in.perc_prbl <= in.compl_prbl, "completion above percolation", "order");
    ST chosen = in.which_transition_temp >= 1 && in.which_transition_temp <= 4 ? R[in.which_transition_temp - 1].st : ST::NotSet;
    if (!crit)
    {
      c.check(!g.trans_temp && !g.alpha && !g.vwall && g.status_gw == StatusGW::NotSet, "gravitational waves without a transition", "gw");
      continue;
    }
    c.check(bounces < t.ListBounceSolution.size(), "number of bounce solutions", "number");
    BounceSolution b = t.ListBounceSolution[bounces++];
    c.check(b.status_bounce_sol == st.status_bounce_sol[i], "status of the bounce solution", "status");
    if (b.status_bounce_sol != StatusGW::Success)
    {
      c.check(st.status_nucl_approx[i] != ST::Success && st.status_nucl[i] != ST::Success && st.status_perc[i] != ST::Success && st.status_compl[i] != ST::Success && !g.trans_temp && !g.alpha && g.status_gw != StatusGW::Success, "transition without a bounce solution", "status");
      continue;
    }
    // the same calculation step by step
    b.CalculateNucleationTempApprox();
    b.CalculateNucleationTemp();
    b.CalculatePercolationTemp(in.perc_prbl);
    b.CalculateCompletionTemp(in.compl_prbl);
    double T[4] = {b.GetNucleationTempApprox(), b.GetNucleationTemp(), b.GetPercolationTemp(), b.GetCompletionTemp()};
    ST S[4]     = {b.status_nucl_approx, b.status_nucl, b.status_perc, b.status_compl};
    for (int j = 0; j < 4; j++)
    {
      c.check(S[j] == R[j].st, std::string(R[j].what) + ": status", "status");
      if (S[j] == ST::Success) c.close(*R[j].T, T[j], 1e-6, 0, std::string(R[j].what) + " temperature", "temperature");
    }
    bool gw = in.gw_calculation && chosen == ST::Success && R[2].st == ST::Success;
    if (!gw)
    {
      c.check(!g.trans_temp && !g.alpha && !g.vwall && g.status_gw == StatusGW::NotSet, "gravitational waves without the transition temperature", "gw");
      continue;
    }
    c.check(g.alpha.has_value() && g.vwall.has_value() && g.beta_over_H.has_value() && g.trans_temp.has_value(), "no strength", "gw");
    b.CalculatePTStrength();
    GravitationalWave w(b, in.which_transition_temp);
    auto eq = [&](const std::optional<double> &a, double x, const char *what) {
      c.check(a.has_value() && same(*a, x, 1e-4), std::string(what) + ": " + (a ? std::to_string(*a) : "none") + " in place of " + std::to_string(x), "gw");
    };
    eq(g.vwall, b.GetWallVelocity(), "wall velocity");
    if (in.vwall > 0) eq(g.vwall, in.vwall, "wall velocity");
    eq(g.alpha, b.GetPTStrength(), "strength");
    eq(g.beta_over_H, b.GetInvTimeScale(), "inverse time scale");
    eq(g.trans_temp, w.data.transitionTemp, "transition temperature");
    if (in.vwall > 0) eq(g.trans_temp, *R[in.which_transition_temp - 1].T, "transition temperature");
    c.check(g.status_gw == StatusGW::Failure || (*g.trans_temp > 0 && *g.trans_temp <= p.crit_temp + 1e-6), "transition temperature " + std::to_string(*g.trans_temp) + " of the gravitational waves", "gw");
    if (g.status_gw == StatusGW::Failure || w.data.status == StatusGW::Failure)
    {
      c.check(w.data.status == g.status_gw || b.GetInvTimeScale() >= 1, "status of the gravitational waves", "gw");
      c.check(w.data.status != StatusGW::Failure || !g.fpeak_sw, "spectrum without success", "gw");
      continue;
    }
    c.label("gravitational waves");
    w.CalcPeakFrequencySoundWave(), w.CalcPeakAmplitudeSoundWave(), w.CalcPeakFrequencyTurbulence(), w.CalcPeakAmplitudeTurbulence();
    eq(g.fpeak_sw, w.data.fPeakSoundWave, "peak frequency");
    eq(g.h2Omega_sw, w.data.h2OmegaPeakSoundWave, "peak amplitude");
    eq(g.fpeak_turb, w.data.fPeakTurbulence, "peak frequency of the turbulence");
    eq(g.h2Omega_turb, w.data.h2OmegaPeakTurbulence, "peak amplitude of the turbulence");
    eq(g.K_sw, w.data.K_sw, "energy fraction");
    eq(g.K_turb, w.data.K_turb, "energy fraction of the turbulence");
    auto snr = [&](bool a, bool q) {
      w.data.swON = a, w.data.turbON = q;
      return w.GetSNR(1e-6, 10);
    };
    eq(g.SNR_sw, snr(true, false), "signal-to-noise ratio of the sound waves");
    eq(g.SNR_turb, snr(false, true), "signal-to-noise ratio of the turbulence");
    eq(g.SNR, snr(true, true), "signal-to-noise ratio");
  }
  c.check(bounces == t.ListBounceSolution.size(), "number of bounce solutions", "number");
  // the history follows the transitions that complete, the first one to complete at each step
  std::string h = "0";
  for (int now = 0, steps = 0; steps < 100; steps++)
  {
    int best = -1, ways = 0;
    for (std::size_t i = 0; i < n; i++)
      ways += t.vec_coex[i].false_phase.id == now && o.vec_trans_data[i].compl_temp;
    if (ways > 1) c.label("several ways out of a phase");
    for (std::size_t i = 0; i < n; i++)
      if (t.vec_coex[i].false_phase.id == now && o.vec_trans_data[i].compl_temp && (best < 0 || *o.vec_trans_data[i].compl_temp > *o.vec_trans_data[best].compl_temp)) best = i;
    if (best < 0) break;
    now = t.vec_coex[best].true_phase.id;
    h += "-(" + std::to_string(best) + ")->" + std::to_string(now);
  }
  c.check(o.transition_history == h, "history " + o.transition_history + " in place of " + h, "history");
  c.label("history " + std::to_string(std::count(h.begin(), h.end(), '>')));
}

static user_input options(Src &s, Ctx &c, const Model &m)
{
  user_input in;
  in.modelPointer = m;
  in.vwall        = s.chance(50) ? 0.95 : s.chance(40) ? s.real(0.05, 1) : s.chance(40) ? s.logreal(1e-6, 0.05) : s.boolean() ? -1 : -2;
  if (s.chance(40)) in.perc_prbl = s.real(0.3, 0.95);
  if (s.chance(40)) in.compl_prbl = s.real(0.005, 0.25);
  if (s.chance(40)) in.epsturb = s.chance(50) ? -1 : s.unit();
  if (s.chance(20)) in.maxpathintegrations = s.integer(3, 10);
  in.multistepmode     = s.pick(std::vector<int>{-1, -1, 0, 1, 2});
  in.num_points        = s.integer(5, 15);
  in.ewsr_check        = s.pick(std::vector<int>{0, 0, 1, 2, 3});
  in.nlo_check         = s.chance(40);
  in.which_minimizer   = 6;
  in.gw_calculation    = s.chance(80);
  in.which_transition_temp = s.chance(40) ? 3 : s.integer(1, 4);
  in.number_of_initial_scan_temperatures = s.chance(50) ? 25 : s.integer(12, 40);
  c.add("wall velocity, fractions, turbulence", str(Vec{in.vwall, in.perc_prbl, in.compl_prbl, in.epsturb}));
  c.add("mode, points, checks, transition temperature, scan", str(Vec{(double)in.multistepmode, (double)in.num_points, (double)in.ewsr_check, (double)in.nlo_check, (double)in.which_transition_temp, (double)in.number_of_initial_scan_temperatures, (double)in.gw_calculation}));
  return in;
}
static void report(Ctx &c, TransitionTracer &t)
{
  auto &o = t.output_store;
  c.add("history", o.transition_history);
  for (std::size_t i = 0; i < o.vec_trans_data.size(); i++)
  {
    auto &d = o.vec_trans_data[i];
    c.add("temperatures of pair " + std::to_string(i), str(Vec{d.crit_temp.value_or(NAN), d.nucl_approx_temp.value_or(NAN), d.nucl_temp.value_or(NAN), d.perc_temp.value_or(NAN), d.compl_temp.value_or(NAN)}));
    c.label(d.compl_temp ? "completed" : d.perc_temp ? "percolated" : d.nucl_temp ? "nucleated" : "none");
  }
}

// two or three wells, each with a first-order transition of known surface tension
static void c24_wells(Src &s, Ctx &c)
{
  int nw = s.chance(60) ? 2 : 3, nf = s.pick(std::vector<int>{1, 1, 2, 3});
  bool middle = nw == 3 && s.chance(60); // the hot phase lies between the other two and can decay to either
  double Tc = s.real(60, 160), gf = s.real(5, 40), k = s.logreal(5e3, 1e5), x = s.chance(70) ? 0 : s.sym(30);
  auto w = std::make_shared<Wells>();
  Vec X{x}, tcs{Tc}, desc{Tc, gf, k, x, (double)nf};
  for (int i = 1; i < nw; i++)
  {
    double d = s.real(35, 90);
    X.push_back(middle && i == 2 ? X[0] - d : X.back() + d);
    tcs.push_back(i == 1 ? Tc : Tc * s.real(0.4, 0.95));
  }
  std::vector<int> order;
  for (int i = 0; i < nw; i++)
    order.push_back(i);
  std::sort(order.begin(), order.end(), [&](int a, int b) { return X[a] < X[b]; });
  for (int i : order)
  {
    double y = X[i];
    w->x.push_back([=](double) { return y; });
    w->F.push_back([](double) { return 0.; });
  }
  w->k = k;
  std::vector<std::function<double(double)>> F{[=](double T) { return -gf * std::pow(T, 4); }};
  for (int i = 1; i < nw; i++)
  {
    int from = middle ? 0 : i - 1;
    // surface tension and height of the barrier at equal free energies
    double d = X[i] - X[from], sigma = 0, barrier = 0;
    for (int j = 0; j < 100; j++)
    {
      double V = w->at(X[from] + d * (j + 0.5) / 100, 0);
      sigma += std::sqrt(2 * V) * std::abs(d) / 100, barrier = std::max(barrier, V);
    }
    double tc = tcs[i], t = s.real(0.4, 0.97), n = s.real(1, 3), dF = std::sqrt(16 * M_PI / 3 * std::pow(sigma, 3) / (140 * tc * t)) * s.logreal(1, 4);
    double L = std::min(dF * n / (1 - std::pow(t, n)), 4.5 * barrier * n);
    auto f   = F[from];
    F.push_back([=](double T) { return f(T) + L / n * (std::pow(T / tc, n) - 1); });
    for (double q : {d, tc, n, L})
      desc.push_back(q);
  }
  for (int i = 0; i < nw; i++)
    w->F[i] = F[order[i]];
  if (middle) desc.push_back(1), c.label("hot phase in the middle");
  double my = s.real(5e3, 3e4), slope = s.sym(0.5);
  auto m = std::make_shared<Synth>(nf, 1);
  m->V   = [=](const Vec &v, double T) {
    double e = w->at(v[0], T);
    for (std::size_t i = 1; i < v.size(); i++)
    {
      double y = v[i] - slope * v[0];
      e += my / 2 * y * y;
    }
    return e;
  };
  m->install();
  auto place = [&](int i) {
    Vec v(nf, slope * X[i]);
    v[0] = X[i];
    return v;
  };
  m->vevTreeMin = place(s.chance(90) ? nw - 1 : s.below(nw));
  c.add("wells", str(desc));
  auto in   = options(s, c, m);
  in.T_high = Tc * s.real(1.05, 1.8), in.T_low = s.chance(60) ? 0 : Tc * (s.chance(50) ? s.real(0.05, 0.9) : s.real(0.6, 0.98));
  c.add("range", str(Vec{in.T_low, in.T_high}));
  TransitionTracer t(in);
  report(c, t);
  c.add("statuses", str(Vec{(double)(int)t.output_store.status.status_nlo_stability, (double)(int)t.output_store.status.status_ewsr, (double)(int)t.output_store.status.status_tracing, (double)(int)t.output_store.status.status_coex_pairs}));
  consistent(c, in, t);
  for (auto &d : t.output_store.vec_trans_data)
    if (d.nucl_temp) c.nontrivial();
}

static void c24_real(Src &s, Ctx &c)
{
  std::string n = c.thorough ? s.pick(realModels()) : s.pick(std::vector<std::string>{"r2hdm", "cxsm", "cpinthedark"});
  Point P       = genPoint(s, n, 0.5);
  c.add("model", n);
  c.label(n);
  c.add("parameters", str(P.par));
  Model m = initPoint(P);
  if (!m) c.discard();
  auto in = options(s, c, m);
  in.T_high = s.real(150, 300), in.T_low = s.chance(70) ? 0 : s.real(0, 80);
  if (in.multistepmode == 1 || in.multistepmode == 2) in.multistepmode = -1; // the search for the global minimum takes long
  if (!c.thorough) in.maxpathintegrations = 3, in.number_of_initial_scan_temperatures = 12;
  c.add("range", str(Vec{in.T_low, in.T_high}));
  TransitionTracer t(in);
  report(c, t);
  consistent(c, in, t);
  if (!t.output_store.vec_trans_data.empty()) c.nontrivial();
}

int main(int argc, char **argv)
{
  std::vector<pbt::Property> P;
  P.push_back({"C24",
               {{"wells", 180, 10000, c24_wells, "a transition nucleates", 300},
                {"real", 8, 300, c24_real, "coexisting phases", 70}},
               {}});
  return main_(P, argc, argv);
}
