// C23: gravitational-wave spectra and signal-to-noise ratio.
#include "common.hpp"
#include <BSMPT/gravitational_waves/gw.h>

using namespace pbt;
using LD = long double;
using BSMPT::BounceSolution;
using BSMPT::GravitationalWave;
using BSMPT::StatusGW;
using BSMPT::StatusTemperature;

// ---------------------------------------------------------------- reference
namespace R
{
static const LD pi = acosl(-1.0L), cs = 1 / sqrtl(3.0L);
static LD jouguet(LD a) { return (sqrtl(2 * a / 3 + a * a) + cs) / (1 + a); }
// Espinosa, Konstandin, No, Servant (1004.4187), appendix A
static LD kA(LD a, LD v) { return powl(v, 1.2L) * 6.9L * a / (1.36L - 0.037L * sqrtl(a) + a); }
static LD kB(LD a) { return powl(a, 0.4L) / (0.017L + powl(0.997L + a, 0.4L)); }
static LD kC(LD a) { return sqrtl(a) / (0.135L + sqrtl(0.98L + a)); }
static LD kD(LD a) { return a / (0.73L + 0.083L * sqrtl(a) + a); }
static LD kappa(LD a, LD v)
{
  LD xi = jouguet(a);
  if (v < cs)
    return powl(cs, 2.2L) * kA(a, v) * kB(a) / ((powl(cs, 2.2L) - powl(v, 2.2L)) * kB(a) + v * powl(cs, 1.2L) * kA(a, v));
  if (v > xi)
  {
    LD p = powl(xi - 1, 3) * powl(xi / v, 2.5L);
    return p * kC(a) * kD(a) / ((powl(xi - 1, 3) - powl(v - 1, 3)) * powl(xi, 2.5L) * kC(a) + powl(v - 1, 3) * kD(a)) *
           powl(v, 2.5L) / powl(v, 2.5L) * 1;
  }
  LD d = -0.9L * logl(sqrtl(a) / (1 + sqrtl(a))), q = (v - cs) / (xi - cs);
  return kB(a) + (v - cs) * d + q * q * q * (kC(a) - kB(a) - (xi - cs) * d);
}
struct Par
{
  double T = 100, alpha = 0.1, beta = 100, v = 0.9, eps = 0.1, g = 106.75;
};
struct Spec
{
  LD kappa, K, HR, eps, Kt, H, fsw, osw, ft, ot;
};
static Spec spec(const Par &p)
{
  Spec s;
  LD a    = p.alpha;
  s.kappa = R::kappa(a, p.v);
  s.K     = s.kappa * a / (1 + a);
  s.HR    = powl(8 * pi, 1 / 3.0L) * std::max<LD>(p.v, cs) / p.beta;
  LD tau  = 2 * s.HR / sqrtl(3 * s.K); // turn-over time of the fluid in Hubble times
  s.eps   = p.eps == -1 ? powl(1 - std::min<LD>(tau, 1), 2 / 3.0L) : (LD)p.eps;
  s.Kt    = s.eps * s.kappa * a / (1 + a);
  s.H     = pi * sqrtl((LD)p.g / 90) * (LD)p.T * (LD)p.T / 2.4e18L;
  LD red  = (LD)p.T / 100 * powl((LD)p.g / 100, 1 / 6.0L), dil = powl(100 / (LD)p.g, 1 / 3.0L);
  s.fsw   = 26e-6L / s.HR * red;
  s.ft    = 7.909e-5L / s.HR * red;
  s.osw   = 0.674L * 0.674L * 2.061L * 1.2e-2L * 3.57e-5L * dil * s.HR * s.K * s.K * std::min<LD>(1, tau);
  s.ot    = 1.144e-4L * dil * s.HR * powl(s.Kt, 1.5L);
  return s;
}
static LD shapeSW(LD x) { return x * x * x * powl(7 / (4 + 3 * x * x), 3.5L); }
// hubble: Hubble rate the factor of the turbulence spectrum is calculated with
static LD amp(const Spec &s, LD f, bool sw, bool turb, LD hubble)
{
  LD r = 0;
  if (sw) r += s.osw * shapeSW(f / s.fsw);
  if (turb) r += s.ot * powl(f / s.ft, 3) / powl(1 + f / s.ft, 11 / 3.0L) / (1 + 8 * pi * f / hubble);
  return r;
}
static LD sens(LD f)
{
  LD h0 = 100 / 3.09e19L;
  LD s1 = 5.76e-48L * (1 + powl(0.4e-3L / f, 2)) / powl(2 * pi * f, 4), s2 = 3.6e-41L, r = 1 + powl(f / 25e-3L, 2);
  return 4 * pi * pi / (3 * h0 * h0) * f * f * f * 10 / 3.0L * (s1 + s2) * r;
}
// composite Gauss-Legendre (5 nodes) in log f
template <class F> static LD integrate(F fn, LD a, LD b, int n)
{
  static const LD x[3] = {0, 0.5384693101056831L, 0.9061798459386640L};
  static const LD w[3] = {0.5688888888888889L, 0.4786286704993665L, 0.2369268850561891L};
  LD la = logl(a), h = (logl(b) - la) / n, r = 0;
  for (int i = 0; i < n; i++)
  {
    LD m = la + (i + 0.5L) * h;
    for (int k = 0; k < 3; k++)
      for (int s = -1; s <= (k ? 1 : -1); s += 2)
      {
        LD f = expl(m + s * x[k] * h / 2);
        r += w[k] * h / 2 * fn(f) * f;
      }
  }
  return r;
}
} // namespace R

static std::shared_ptr<BSMPT::Class_Potential_Origin> theModel()
{
  static std::shared_ptr<BSMPT::Class_Potential_Origin> m = BSMPT::ModelID::FChoose(BSMPT::ModelID::ModelIDs::SM, BSMPT::GetSMConstants());
  return m;
}
static R::Par genPar(Src &s, Ctx &c)
{
  R::Par p;
  p.T     = s.chance(80) ? s.logreal(20, 500) : s.logreal(0.5, 5000);
  p.alpha = s.chance(70) ? s.logreal(1e-3, 2) : s.logreal(1e-5, 100);
  p.beta  = s.chance(80) ? s.logreal(1.01, 1e5) : s.logreal(1.0001, 1e7);
  p.g     = s.chance(40) ? 106.75 : s.real(60, 140);
  switch (s.below(6))
  {
  case 0: p.v = s.real(0.02, 0.57); c.label("subsonic"); break;
  case 1: p.v = s.real(0.58, 0.999); break;
  case 2: p.v = 0.95; break;
  case 3: p.v = 1; c.label("v = 1"); break;
  case 4: p.v = (double)(R::jouguet(p.alpha) + (s.chance(50) ? 1e-3 : -1e-3)); c.label("near Jouguet"); break;
  default: p.v = (double)(R::cs + (s.chance(50) ? 1e-3 : -1e-3)); c.label("near the speed of sound"); break;
  }
  p.v = std::min(p.v, 1.0);
  if (p.v > R::jouguet(p.alpha)) c.label("detonation");
  p.eps = s.chance(40) ? -1 : s.chance(20) ? s.below(2) : s.real(0.01, 1);
  if (p.eps == -1) c.label("turbulence efficiency from the upper bound");
  return p;
}
static std::string show(const R::Par &p)
{
  std::ostringstream o;
  o << std::setprecision(17) << "T=" << p.T << " alpha=" << p.alpha << " beta/H=" << p.beta << " v=" << p.v << " eps=" << p.eps
    << " g*=" << p.g;
  return o.str();
}
static BounceSolution make(const R::Par &p, int which = 3)
{
  BounceSolution b(theModel());
  b.vwall   = p.v;
  b.alpha   = p.alpha;
  b.betaH   = p.beta;
  b.epsturb = p.eps;
  b.SetGstar(p.g);
  b.Tnucl_approx = which == 1 ? p.T : 11.1;
  b.Tnucl        = which == 2 ? p.T : 12.2;
  b.Tperc        = which == 3 ? p.T : 13.3;
  b.Tcompl       = which == 4 ? p.T : 14.4;
  b.status_nucl_approx = b.status_nucl = b.status_perc = b.status_compl = StatusTemperature::Success;
  return b;
}

// ---------------------------------------------------------------- parameters
static void c23_parameters(Src &s, Ctx &c)
{
  R::Par p  = genPar(s, c);
  int which = 1 + s.below(4);
  c.add("parameters", show(p) + " temperature " + std::to_string(which));
  BounceSolution b = make(p, which);
  bool gone        = s.chance(10);
  if (gone)
  {
    (which == 1 ? b.status_nucl_approx : which == 2 ? b.status_nucl : which == 3 ? b.status_perc : b.status_compl) =
        s.chance(50) ? StatusTemperature::NotMet : StatusTemperature::NotSet;
    c.label("temperature not available");
  }
  bool slow = s.chance(10);
  if (slow)
  {
    p.beta = b.betaH = s.real(0.05, 0.999);
    c.label("beta/H below one");
  }
  GravitationalWave gw(b, which);
  if (gone)
  {
    c.check(gw.data.transitionTemp == -1 && gw.data.status == StatusGW::Failure, "a missing transition temperature must fail",
            "missing");
    c.nontrivial();
    return;
  }
  c.check(gw.data.transitionTemp == p.T, "transition temperature is not the requested one", "temperature");
  c.check((gw.data.status == StatusGW::Failure) == slow, "status for beta/H " + std::to_string(p.beta), "status");
  R::Spec r = R::spec(p);
  c.close(gw.data.PTStrength, p.alpha, 0, 0, "strength", "alpha");
  c.close(gw.data.InvTimeScale, p.beta, 0, 0, "inverse time scale", "beta");
  c.close(gw.data.vb, p.v, 0, 0, "wall velocity", "vwall");
  c.close(gw.data.gstar, p.g, 0, 0, "degrees of freedom", "gstar");
  // near a detonation front that is as fast as light numerator and denominator of the fit cancel
  double canc = p.v > R::jouguet(p.alpha) ? 1e-14 / std::pow((double)(1 - R::jouguet(p.alpha)), 3) : 0, tol = 1e-9 + canc;
  if (tol > 1e-3) c.discard();
  c.close(gw.data.kappa_sw, (double)r.kappa, tol, 0, "efficiency factor of sound waves", "kappa");
  c.close(gw.data.K_sw, (double)r.K, tol, 0, "kinetic energy fraction", "K");
  c.close(gw.data.HR, (double)r.HR, 1e-10, 0, "mean bubble separation", "HR");
  c.close(gw.data.Hstar, (double)r.H, 1e-10, 0, "Hubble rate", "Hubble");
  LD tau       = 2 * r.HR / sqrtl(3 * r.K);
  double tolE  = tol * 10 / std::max(1e-6, (double)std::abs(1 - tau));
  if (p.eps == -1 && tau >= 1 && tolE < 0.1)
  {
    c.label("long-lived sound waves");
    c.check(gw.data.K_turb == 0 && gw.data.kappa_turb == 0, "no turbulence for sound waves that last a Hubble time", "eps");
  }
  c.close(gw.data.K_turb, (double)r.Kt, p.eps == -1 ? tolE : tol, 1e-15, "kinetic energy fraction of turbulence", "Kturb");
  c.check(gw.data.K_turb <= gw.data.K_sw * (1 + 1e-9), "more turbulence than motion", "Kturb");
  gw.CalcPeakFrequencySoundWave();
  gw.CalcPeakAmplitudeSoundWave();
  gw.CalcPeakFrequencyTurbulence();
  gw.CalcPeakAmplitudeTurbulence();
  c.close(gw.data.fPeakSoundWave, (double)r.fsw, 1e-9, 0, "peak frequency of sound waves", "fsw");
  c.close(gw.data.h2OmegaPeakSoundWave, (double)r.osw, 4 * tol, 0, "peak amplitude of sound waves", "osw");
  c.close(gw.data.fPeakTurbulence, (double)r.ft, 1e-9, 0, "peak frequency of turbulence", "ft");
  c.close(gw.data.h2OmegaPeakTurbulence, (double)r.ot, p.eps == -1 ? 2 * tolE : 2 * tol, 1e-18, "peak amplitude of turbulence", "ot");
  c.check(BSMPT::IsFluidTurnoverApproxOne((double)r.HR, (double)r.K) == (tau >= 1) || std::abs((double)tau - 1) < 1e-12,
          "duration of the sound waves", "turnover");
  if (tau >= 1) c.label("duration of one Hubble time");
  c.nontrivial();
}

// the fit of the efficiency factor is a continuous fraction of the energy
static void c23_kappa(Src &s, Ctx &c)
{
  double a = s.logreal(1e-4, 30), cs = BSMPT::GetSMConstants().Csound, xi = (double)R::jouguet(a);
  c.add("alpha", a);
  double d = 1e-9;
  auto k   = [&](double v) { return BSMPT::Getkappa_sw(a, v, cs); };
  for (double v0 : {cs, xi})
  {
    double l = k(v0 - d), r = k(v0 + d), m = k(v0);
    double tol = v0 == xi ? 1e-4 + 1e-12 / std::pow(1 - xi, 3) + 3e-6 / (1 - xi) : 1e-4;
    if (tol > 0.1) continue;
    c.close(l, m, tol, 0, "efficiency below v=" + std::to_string(v0), "continuity");
    c.close(r, m, tol, 0, "efficiency above v=" + std::to_string(v0), "continuity");
    c.nontrivial();
  }
  double v = s.real(0.05, 1), q = k(v);
  c.add("v", v);
  c.check(std::isfinite(q) && q > 0, "efficiency is not positive", "range");
  if (v < xi - 1e-9 || xi < 0.99) c.check(q <= 1.05, "efficiency above one: " + std::to_string(q), "range");
}

// ---------------------------------------------------------------- spectrum after any history of calls
static void c23_spectrum(Src &s, Ctx &c)
{
  R::Par p = genPar(s, c);
  if (R::jouguet(p.alpha) > 0.99 && p.v > R::jouguet(p.alpha)) c.discard();
  c.add("parameters", show(p));
  R::Spec r        = R::spec(p);
  BounceSolution b = make(p);
  GravitationalWave gw(b, 3);
  LD tau     = 2 * r.HR / sqrtl(3 * r.K);
  double tol = 1e-7, tt = p.eps == -1 ? 1e-7 / std::max(1e-4, (double)std::abs(1 - tau)) : 1e-7;
  std::string hist;
  int n = 1 + s.below(6);
  for (int i = 0; i < n; i++)
    switch (s.below(8))
    {
    case 0: gw.CalcPeakFrequencySoundWave(); hist += " fsw"; break;
    case 1: gw.CalcPeakAmplitudeSoundWave(); hist += " osw"; break;
    case 2: gw.CalcPeakFrequencyTurbulence(); hist += " ft"; break;
    case 3: gw.CalcPeakAmplitudeTurbulence(); hist += " ot"; break;
    default:
    {
      bool sw = s.chance(60), tu = s.chance(60);
      double f = s.chance(50) ? s.logreal(1e-6, 10) : (double)(s.chance(50) ? r.fsw : r.ft) * s.logreal(0.1, 10);
      hist += " amplitude(" + std::to_string(f) + "," + std::to_string(sw) + std::to_string(tu) + ")";
      c.add("calls", hist);
      double A  = gw.CalcGWAmplitude(f, sw, tu);
      LD want   = R::amp(r, f, sw, tu, r.H);
      if (i == 0) c.label("amplitude first");
      c.check(std::isfinite(A) && A >= 0, "amplitude is not finite and positive", "finite");
      c.close(A, (double)want, tu ? tol + tt : tol, 1e-300, "amplitude", "amplitude");
      if (sw && !tu && r.osw > 0) c.check(A <= (double)r.osw * (1 + 1e-6), "spectrum above its peak", "peak");
      c.nontrivial();
    }
    }
  // the spectrum of sound waves has its maximum, the peak amplitude, at the peak frequency
  double A = gw.CalcGWAmplitude((double)r.fsw, true, false);
  c.close(A, (double)r.osw, tol, 0, "peak of the sound waves", "peak");
  double f = s.logreal(1e-6, 10), a1 = gw.CalcGWAmplitude(f, true, false), a2 = gw.CalcGWAmplitude(f, false, true),
         a3 = gw.CalcGWAmplitude(f, true, true);
  c.close(a3, a1 + a2, 1e-12, 0, "sum of the contributions", "additive");
  c.check(gw.CalcGWAmplitude(f, false, false) == 0, "amplitude without contributions", "additive");
  // a different transition on the same numbers
  GravitationalWave again(b, 3);
  c.close(again.CalcGWAmplitude(f, true, true), a3, 1e-12, 1e-300, "amplitude of a fresh object", "history");
}

// the factor of the turbulence spectrum compares a frequency today in Hz with the Hubble rate, redshifted to today
static void c23_redshift(Src &s, Ctx &c)
{
  R::Par p = genPar(s, c);
  p.eps    = s.real(0.05, 1);
  if (R::jouguet(p.alpha) > 0.99 && p.v > R::jouguet(p.alpha)) c.discard();
  c.add("parameters", show(p));
  R::Spec r        = R::spec(p);
  BounceSolution b = make(p);
  GravitationalWave gw(b, 3);
  gw.CalcPeakFrequencyTurbulence();
  gw.CalcPeakAmplitudeTurbulence();
  double f = (double)r.ft * s.logreal(0.03, 30);
  LD h0    = 1.65e-5L * (LD)p.T / 100 * powl((LD)p.g / 100, 1 / 6.0L);
  c.nontrivial();
  double A = gw.CalcGWAmplitude(f, false, true);
  c.close(A, (double)R::amp(r, f, false, true, h0), 0.02, 0, "turbulence with the redshifted Hubble rate",
          std::abs(A / (double)R::amp(r, f, false, true, r.H) - 1) < 1e-5 ? "units" : "redshift");
}

// ---------------------------------------------------------------- LISA
static void c23_sensitivity(Src &s, Ctx &c)
{
  double f = s.logreal(1e-7, 20);
  c.add("f", f);
  c.close(BSMPT::h2OmSens(f), (double)R::sens(f), 1e-10, 0, "sensitivity of LISA", "sens");
  c.check(BSMPT::SIfunc(f) > 5.7e-48 && BSMPT::Rfunc(f) > 1 && BSMPT::powspec_density(f) > 0, "noise is positive", "sens");
  c.nontrivial();
}

static void c23_snr(Src &s, Ctx &c)
{
  R::Par p = genPar(s, c);
  if (R::jouguet(p.alpha) > 0.99 && p.v > R::jouguet(p.alpha)) c.discard();
  R::Spec r = R::spec(p);
  LD tau    = 2 * r.HR / sqrtl(3 * r.K);
  if (p.eps == -1 && std::abs((double)tau - 1) < 1e-3) c.discard();
  double f1 = s.chance(60) ? 1e-6 : s.logreal(1e-6, 1e-3), f2 = s.chance(60) ? 10 : f1 * s.logreal(2, 1e4);
  double T  = s.chance(50) ? 3 : s.real(0.5, 10);
  bool sw = s.chance(60), tu = !sw || s.chance(60);
  c.add("parameters", show(p));
  c.add("range", std::to_string(f1) + ".." + std::to_string(f2) + " T=" + std::to_string(T) + " sw=" + std::to_string(sw) +
                     " turb=" + std::to_string(tu));
  BounceSolution b = make(p);
  GravitationalWave gw(b, 3);
  gw.data.swON   = sw;
  gw.data.turbON = tu;
  if (s.chance(50))
  {
    gw.CalcPeakFrequencySoundWave();
    gw.CalcPeakAmplitudeSoundWave();
    gw.CalcPeakFrequencyTurbulence();
    gw.CalcPeakAmplitudeTurbulence();
    c.label("peaks first");
  }
  auto fn = [&](LD f) {
    LD q = R::amp(r, f, sw, tu, r.H) / R::sens(f);
    return q * q;
  };
  LD I = R::integrate(fn, f1, f2, 600);
  double snr = gw.GetSNR(f1, f2, T), want = (double)sqrtl(86400 * 365.25L * T * I);
  c.check(std::isfinite(snr) && snr >= 0, "signal-to-noise ratio is not finite and positive", "finite");
  c.close(snr, want, 2e-5, 0, "signal-to-noise ratio", "snr");
  c.check(gw.data.status == StatusGW::Success, "status after the signal-to-noise ratio", "status");
  if (want > 1) c.label("detectable");
  // squares add up over frequencies and grow linearly with time
  double fm = std::sqrt(f1 * f2), x = gw.GetSNR(f1, fm, T), y = gw.GetSNR(fm, f2, T);
  c.close(x * x + y * y, snr * snr, 1e-4, 0, "sum over frequencies", "additive");
  double T4 = 4 * T;
  c.close(gw.GetSNR(f1, f2, T4), 2 * snr, 1e-9, 0, "four times the time", "time");
  if (T == 3) c.close(gw.GetSNR(f1, f2), snr, 1e-12, 0, "default time", "time");
  if (want > 0) c.nontrivial();
}

// ---------------------------------------------------------------- Hubble rate, degrees of freedom and the chosen temperature
static void c23_chosen(Src &s, Ctx &c)
{
  static std::map<std::string, std::shared_ptr<BSMPT::Class_Potential_Origin>> models;
  auto name = s.pick(realModels());
  auto &m   = models[name];
  if (!m) m = fresh(name);
  c.add("model", name);
  BounceSolution b(m);
  b.CalcGstarPureRad();
  // gluons, W and Z, photon, leptons, neutrinos, quarks of the unbroken phase; the Goldstones are scalars
  double want = 16 + 9 + 2 + m->get_NHiggs() + 7. / 8 * (72 + 12 + 6);
  c.close(b.GetGstar(), want, 1e-12, 0, "relativistic degrees of freedom", "gstar");
  double T = s.logreal(0.1, 1e4), g = s.real(1, 300);
  b.SetGstar(g);
  c.add("T", T);
  c.close(b.HubbleRate(T), M_PI * std::sqrt(g / 90) * T * T / 2.4e18, 1e-12, 0, "Hubble rate", "Hubble");
  StatusTemperature st[5];
  double te[5] = {0, s.real(1, 300), s.real(1, 300), s.real(1, 300), s.real(1, 300)};
  for (int i = 1; i < 5; i++)
    st[i] = s.pick(std::vector<StatusTemperature>{StatusTemperature::Success, StatusTemperature::Success, StatusTemperature::NotMet,
                                                  StatusTemperature::NotSet, StatusTemperature::NaN});
  b.Tnucl_approx = te[1], b.Tnucl = te[2], b.Tperc = te[3], b.Tcompl = te[4];
  b.status_nucl_approx = st[1], b.status_nucl = st[2], b.status_perc = st[3], b.status_compl = st[4];
  for (int i = 0; i < 6; i++)
  {
    double e = i >= 1 && i <= 4 && st[i] == StatusTemperature::Success ? te[i] : -1;
    c.check(b.CalcTransitionTemp(i) == e, "transition temperature " + std::to_string(i), "chosen");
  }
  c.nontrivial();
}

int main(int argc, char **argv)
{
  std::vector<Property> P;
  P.push_back({"C23",
               {{"parameters", 60000, 3000000, c23_parameters, "the fit is well conditioned"},
                {"efficiency", 20000, 500000, c23_kappa, "the fit is well conditioned at one of its seams"},
                {"spectrum", 60000, 3000000, c23_spectrum, "an amplitude is compared in the sequence of calls"},
                {"redshift", 2000, 20000, c23_redshift, "every case"},
                {"sensitivity", 20000, 500000, c23_sensitivity, "every case"},
                {"snr", 6000, 200000, c23_snr, "the reference is positive"},
                {"chosen", 10000, 300000, c23_chosen, "every case"}},
               {"beta/H >= 1, 1e-5 <= alpha <= 100, 0.02 <= vwall <= 1, 0.5 GeV <= T <= 5 TeV",
                "the reference uses the published fits (1004.4187, 1704.05871 with erratum) and the LISA noise model"}});
  return main_(P, argc, argv);
}
