// C25: command line and JSON options.  C26: names and log settings.
#include "common.hpp"
#include <BSMPT/minimizer/Minimizer.h>
#include <BSMPT/minimum_tracer/minimum_tracer.h>
#include <BSMPT/models/IncludeAllModels.h>
#include <BSMPT/utility/Logger.h>
#include <BSMPT/utility/parser.h>
#include <BSMPT/utility/utility.h>
#include <fstream>
#include <set>
#include <thread>

using namespace pbt;
using namespace BSMPT;

static std::string lower(std::string s)
{
  for (auto &c : s)
    if (c >= 'A' && c <= 'Z') c += 32;
  return s;
}
static std::string recase(Src &s, std::string v)
{
  int how = s.below(4);
  for (auto &c : v)
  {
    bool up = how == 0 ? false : how == 1 ? true : how == 2 ? s.boolean() : (c >= 'A' && c <= 'Z');
    if (up && c >= 'a' && c <= 'z') c -= 32;
    if (!up && c >= 'A' && c <= 'Z') c += 32;
  }
  return v;
}
static std::string ident(Src &s)
{
  static const std::vector<std::string> pool = {"input", "Output", "firstLine", "lastline", "model", "thigh", "vwall", "useGSL", "npoints1", "a", "B", "jsonfile", "line"};
  std::string r = s.pick(pool);
  if (s.chance(60)) r += "_" + std::to_string(s.below(30));
  return r;
}
static std::string anyValue(Src &s, bool eq)
{
  int how = s.below(6);
  if (how == 0) return std::to_string(s.integer(-1000, 1000));
  if (how == 1)
  {
    std::ostringstream o;
    o.precision(17);
    o << s.normal() * std::pow(10., s.integer(-8, 8));
    return o.str();
  }
  if (how == 2) return s.pick(std::vector<std::string>{"true", "True", "TRUE", "false", "False", "1", "yes"});
  static const std::string abc = "abcXYZ/.\\-_+:,;\"'{}[]%$#@! \t0123456789";
  std::string r;
  int n = s.integer(0, 14);
  for (int i = 0; i < n; i++)
    r += abc[s.below(abc.size())];
  if (eq && s.chance(30)) r += "=" + std::to_string(s.below(9));
  if (s.chance(10)) r += "\xc3\xa4\xe2\x82\xac";
  return r;
}
static std::string quote(const std::string &s)
{
  std::string r = "\"";
  for (unsigned char c : s)
  {
    if (c == '"' || c == '\\')
      (r += '\\') += c;
    else if (c < 32)
    {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      r += b;
    }
    else
      r += c;
  }
  return r + "\"";
}

struct Quiet
{ // parser and logger write to the log: keep it in a string
  std::ostringstream os, devnull;
  std::streambuf *old;
  Quiet() : old(std::cout.rdbuf(devnull.rdbuf())) { reset(); }
  ~Quiet()
  {
    Logger::SetOStream(std::cerr);
    std::cout.rdbuf(old);
  }
  void reset()
  {
    Logger::SetOStream(os);
    Logger::Disable();
    for (int l = 0; l <= 10; l++)
      Logger::SetLevel((LoggingLevel)l, false);
    Logger::SetLevel(LoggingLevel::Default, true);
  }
};

struct Decl
{
  std::string name;
  bool required;
  int form;
};

template <class F> static std::string thrown(F f)
{ // name of the kind of exception, empty if none
  try
  {
    f();
  }
  catch (const parserException &)
  {
    return "parserException";
  }
  catch (const std::exception &e)
  {
    return "exception";
  }
  return "";
}

static void declare(parser &p, const std::vector<Decl> &ds)
{
  for (auto &d : ds)
  {
    if (d.form == 0) p.add_argument(d.name, d.required);
    if (d.form == 1) p.add_argument(d.name, std::string("text of ") + d.name, d.required);
    if (d.form == 2) p.add_argument(d.name, "text", "7", d.required);
  }
}

static void c25_options(Src &s, Ctx &c)
{
  Quiet q;
  bool column = s.boolean();
  auto p      = column ? std::make_unique<parser>(true) : std::make_unique<parser>();
  std::vector<Decl> ds;
  std::set<std::string> seen = {"json", "help"};
  int n = s.integer(1, 7);
  for (int i = 0; i < n; i++)
  {
    Decl d{ident(s), s.boolean(), (int)s.below(3)};
    if (!seen.insert(lower(d.name)).second) continue;
    ds.push_back(d);
  }
  declare(*p, ds);
  bool minim = s.chance(30);
  if (minim)
  {
    for (auto x : {"useGSL", "useCMAES", "useNLopt", "useMultithreading"})
      if (seen.count(lower(x))) minim = false;
    if (minim)
    {
      p->enable_minimizer_options();
      for (auto x : {"useGSL", "useCMAES", "useNLopt", "useMultithreading"})
        ds.push_back({x, false, 0}), seen.insert(lower(x));
    }
  }
  p->add_argument_only_display("onlyShown", "text", "3");
  p->add_subtext("more");
  p->set_help_header("header");
  for (auto &d : ds)
    c.add(d.required ? "required" : "optional", d.name);
  std::map<std::string, std::string> value;
  int rounds = s.integer(1, 3), given = 0;
  bool spoiled = false;
  for (int r = 0; r < rounds && !spoiled; r++)
  {
    bool json = s.chance(40);
    std::vector<std::pair<std::string, std::string>> kv;
    int m = s.integer(0, 6);
    for (int i = 0; i < m; i++)
      if (!ds.empty()) kv.push_back({ds[s.below(ds.size())].name, anyValue(s, true)});
    std::string unknown;
    if (s.chance(15))
    {
      unknown = s.chance(30) ? "onlyShown" : ident(s) + "_x";
      if (s.chance(20)) unknown = ds[0].name.substr(0, ds[0].name.size() - 1);
      if (seen.count(lower(unknown)) || unknown.empty()) unknown.clear();
      if (!unknown.empty()) kv.insert(kv.begin() + s.below(kv.size() + 1), {unknown, "5"});
    }
    std::map<std::string, std::string> now;
    std::string err;
    if (json)
    {
      std::set<std::string> used;
      std::string f = scratch_dir() + "/in.json", body = "{";
      bool first = true;
      std::vector<std::pair<std::string, std::string>> kept;
      for (auto &[k, v] : kv)
        if (used.insert(lower(k)).second) kept.push_back({k, v});
      for (auto &[k, v] : kept)
      {
        std::string key = recase(s, k);
        if (s.chance(20))
        {
          body += std::string(first ? "" : ",") + quote(key + "_comment") + ":" + s.pick(std::vector<std::string>{"\"text\"", "3", "[1,2]", "null"});
          first = false;
        }
        body += std::string(first ? "" : ",") + (s.boolean() ? "\n " : "") + quote(key) + (s.boolean() ? " : " : ":") + quote(v);
        first = false;
        now[lower(k)] = v;
      }
      body += s.boolean() ? "}\n" : "}";
      std::ofstream(f) << body;
      c.add("json", body);
      std::string arg = std::string(s.below(3), '-') + recase(s, "json") + "=" + f;
      err = thrown([&] { p->add_input(std::vector<std::string>{arg}); });
      c.label("json");
    }
    else
    {
      std::vector<std::string> in;
      for (auto &[k, v] : kv)
      {
        bool space = s.chance(20) && v.find('=') == std::string::npos;
        in.push_back(std::string(s.pick(std::vector<int>{2, 2, 2, 1, 0}), '-') + recase(s, k) + (space ? " " : "=") + v);
        now[lower(k)] = v;
        c.add("arg", in.back());
      }
      if (in.size() == 1 && (lower(kv[0].first) == "json" || lower(kv[0].first) == "help")) continue;
      if (s.chance(5) && !in.empty()) in.push_back("--help");
      err = thrown([&] { p->add_input(in); });
    }
    if (!unknown.empty())
    {
      c.check(err == "parserException", "unknown option " + unknown + " is rejected, got '" + err + "'", "unknown");
      c.label("unknown option");
      spoiled = true;
      break;
    }
    c.check(err.empty(), "valid options are accepted, got " + err, "accept");
    for (auto &[k, v] : now)
      value[k] = v, given++;
  }
  if (spoiled) return;
  if (given >= 2) c.nontrivial();
  bool all = true;
  for (auto &d : ds)
  {
    auto it          = value.find(lower(d.name));
    std::string name = recase(s, d.name);
    if (it == value.end())
    {
      if (d.required) all = false;
      c.check(thrown([&] { p->get_value(name); }) == "parserException", "option not given has no value: " + name, "unset");
      continue;
    }
    std::string got;
    std::string err = thrown([&] { got = p->get_value(name); });
    c.check(err.empty() && got == it->second, "value of " + name + ": '" + got + "' for '" + it->second + "' " + err, "value");
    c.check(p->get_value<bool>(name) == (lower(it->second) == "true"), "logical value of " + name, "bool");
    // numbers are read as such, text that is no number is refused
    const char *b = it->second.c_str();
    char *e;
    long li = strtol(b, &e, 10);
    if (e == b)
      c.check(!thrown([&] { p->get_value<int>(name); }).empty(), "text is not an integer", "int");
    else if (*e == 0)
      c.check(p->get_value<int>(name) == li, "integer value of " + name, "int");
    double d1 = strtod(b, &e);
    if (e == b)
      c.check(!thrown([&] { p->get_value<double>(name); }).empty(), "text is not a number", "double");
    else if (*e == 0 && std::isfinite(d1) && std::abs(d1) > 1e-300)
      c.check(p->get_value<double>(name) == d1, "number value of " + name, "double");
  }
  c.check(p->all_required_set() == all, "all required options given", "required");
  c.check(thrown([&] { p->check_required_parameters(); }) == (all ? "" : "parserException"), "missing required options are reported", "required");
  c.label(all ? "complete" : "incomplete");
  c.check(thrown([&] { p->get_value("no_such_option"); }) == "parserException", "undeclared option has no value", "unset");
}

// any bytes: read or refused with an exception, never a crash or a hang
static void c25_malformed(Src &s, Ctx &c)
{
  Quiet q;
  auto p = s.boolean() ? std::make_unique<parser>(true) : std::make_unique<parser>();
  p->add_argument("input", "text", true);
  p->add_argument("output", "text", "1", false);
  static const std::vector<std::string> bits = {"--", "-", "=", " ", "input", "output", "json", "help", "{", "}", "[", "]", "\"", ":", ",", "\\", "\\u00", "1e999", "null", "true", "-1", "\n", "\t", std::string(1, 0), "\xff", "\xc3", "logginglevel::", "default", "_comment", "//", "a"};
  auto junk = [&](int max) {
    std::string r;
    int n = s.integer(0, max);
    for (int i = 0; i < n; i++)
      r += bits[s.below(bits.size())];
    return r;
  };
  c.nontrivial();
  int what = s.below(3);
  std::string err;
  if (what == 0)
  {
    std::vector<std::string> in;
    int n = s.integer(0, 4);
    for (int i = 0; i < n; i++)
    {
      in.push_back(junk(6));
      std::string l = lower(in.back());
      c.add("arg", in.back());
    }
    err = thrown([&] { p->add_input(in); });
    c.label(err.empty() ? "arguments read" : "arguments refused");
  }
  else
  {
    std::string f = scratch_dir() + "/bad.json", body;
    bool valid = false;
    if (what == 1)
      body = junk(12);
    else
    { // a valid file cut or changed somewhere
      body = "{" + quote("input") + ": " + quote(anyValue(s, true)) + ", " + quote("output") + ": " + quote("7") + ", \"x_comment\": 3}";
      int m = s.below(4);
      if (m == 0) body = body.substr(0, s.below(body.size()));
      if (m == 1) body.insert(s.below(body.size()), bits[s.below(bits.size())]);
      if (m == 2) body.erase(s.below(body.size()), 1 + s.below(3));
      if (m == 3) body = "{\"input\": " + s.pick(std::vector<std::string>{"3", "null", "true", "[]", "{}", "1.5", "[\"a\"]"}) + "}";
      if (m == 0)
      {
        err = ""; // an incomplete file must be refused
        std::ofstream(f) << body;
        c.add("json", body);
        c.check(!thrown([&] { p->add_input(std::vector<std::string>{"--json=" + f}); }).empty(), "incomplete file is refused", "truncated");
        c.label("truncated");
        return;
      }
    }
    std::ofstream(f) << body;
    c.add("json", body);
    err = thrown([&] { p->add_input(std::vector<std::string>{"--json=" + f}); });
    c.label(err.empty() ? "file read" : "file refused");
    if (err.empty() && body.find("\"input\": 3}") != std::string::npos)
      c.check(p->get_value("input") == "3", "number in a file", "number");
  }
  if (s.chance(5))
    c.check(!thrown([&] { p->add_input(std::vector<std::string>{"--json=" + scratch_dir() + "/none.json"}); }).empty(), "missing file is refused", "missing");
  thrown([&] { p->get_value("input"); });
  thrown([&] { p->get_value<int>("input"); });
  thrown([&] { p->get_value<double>("output"); });
  thrown([&] { p->check_required_parameters(); });
}

// ---------------------------------------------------------------- C26
template <class E> static void checkNames(Ctx &c, const std::unordered_map<E, std::string> &m, int n, const char *what)
{
  std::set<std::string> names;
  for (int i = 0; i < n; i++)
  {
    auto it = m.find((E)i);
    c.check(it != m.end(), std::string(what) + " without a name", "status");
    c.check(!it->second.empty() && names.insert(it->second).second, std::string(what) + " name used twice: " + it->second, "status");
    std::ostringstream o;
    o << (E)i;
    c.check(o.str() == it->second, std::string(what) + " printed as " + o.str(), "status");
  }
  c.check(m.size() == (size_t)n, std::string("number of names for ") + what, "status");
}
static const char *modelClass(ModelID::ModelIDs id)
{
  using M = ModelID::ModelIDs;
  switch (id)
  {
  case M::C2HDM: return "c2hdm";
  case M::R2HDM: return "r2hdm";
  case M::N2HDM: return "n2hdm";
  case M::CXSM: return "cxsm";
  case M::CPINTHEDARK: return "cpinthedark";
  case M::SM: return "sm";
  case M::TEMPLATE: return "template";
  default: return "";
  }
}
static void c26_names(Src &s, Ctx &c)
{
  Quiet q;
  using M = ModelID::ModelIDs;
  static const std::map<std::string, std::array<int, 4>> shape = {// Higgs fields, VEVs, parameters, counterterms
                                                                 {"c2hdm", {8, 4, 8, 0}}, {"r2hdm", {8, 4, 8, 0}}, {"n2hdm", {9, 5, 13, 0}}, {"cxsm", {6, 3, 12, 0}}, {"cpinthedark", {9, 5, 13, 0}}, {"sm", {4, 1, 3, 0}}};
  int what = s.below(5);
  if (what <= 1)
  {
    static const M all[] = {M::C2HDM, M::R2HDM, M::N2HDM, M::CXSM, M::CPINTHEDARK, M::SM, M::TEMPLATE};
    M id        = all[s.below(7)];
    std::string n = modelClass(id), v = recase(s, n);
    c.add("name", v);
    c.nontrivial();
    c.check(ModelID::getModel(v) == id, "name to model", "model");
    c.check(lower(ModelIDToString(id)) == n, "model to name", "model");
    std::ostringstream o;
    o << id;
    c.check(o.str() == ModelIDToString(id), "model printed", "model");
    auto inv = ModelID::InvertModelNames();
    c.check(inv.size() == ModelID::ModelNames.size() && inv.size() == 7, "number of models", "model");
    c.check(ModelID::getModel(inv.at(id)) == id, "inverted names", "model");
    if (what == 1)
    {
      auto m = ModelID::FChoose(id, GetSMConstants());
      c.check(m->get_Model() == id, "model chosen has its own identifier", "model");
      auto it = shape.find(n);
      if (it != shape.end())
        c.check((int)m->get_NHiggs() == it->second[0] && (int)m->get_nVEV() == it->second[1], "fields of the chosen model", "model");
    }
    c.label("known model");
  }
  else if (what == 2)
  {
    std::string v;
    auto names = std::vector<std::string>{"c2hdm", "r2hdm", "n2hdm", "cxsm", "cpinthedark", "sm", "template", "", "notset", "stop", "ModelIDs", "2hdm"};
    v          = recase(s, s.pick(names));
    int e      = s.below(4);
    if (e == 0) v += std::string(1, "abc1 _"[s.below(6)]);
    if (e == 1 && !v.empty()) v.erase(s.below(v.size()), 1);
    if (e == 2) v = std::string(1, "abc1 _"[s.below(6)]) + v;
    if (e == 3 && !v.empty()) v[s.below(v.size())] = "xyz9 "[s.below(5)];
    bool known = false;
    for (auto &k : names)
      if (&k - &names[0] < 7 && lower(v) == k) known = true;
    if (!known) c.nontrivial();
    c.add("name", v);
    c.check((ModelID::getModel(v) == M::NotSet) == !known, "unknown model name", "model");
    for (auto bad : {M::NotSet, M::stop})
      c.check(!thrown([&] { ModelID::FChoose(bad, GetSMConstants()); }).empty(), "no model is made without a name", "model");
    c.label("other name");
  }
  else if (what == 3)
  {
    bool g = s.boolean(), m = s.boolean(), n = s.boolean();
    c.nontrivial();
    int w  = Minimizer::CalcWhichMinimizer(g, m, n);
    auto u = Minimizer::GetMinimizers(w);
    c.add("minimisers", std::to_string(g) + std::to_string(m) + std::to_string(n));
    c.check(u.UseGSL == g && u.UseNLopt == n, "selection of minimisers survives", "minimiser");
#ifdef libcmaes_FOUND
    c.check(u.UseCMAES == m, "selection of minimisers survives", "minimiser");
#else
    c.check(!u.UseCMAES, "a minimiser that is not there is not selected", "minimiser");
#endif
    std::set<int> codes;
    for (int k = 0; k < 8; k++)
      codes.insert(Minimizer::CalcWhichMinimizer(k & 1, k & 2, k & 4));
    c.check(codes.size() == 8, "selections have different codes", "minimiser");
  }
  else
  {
    c.nontrivial();
    checkNames(c, StatusNLOStabilityToString, 4, "NLO stability status");
    checkNames(c, StatusEWSRToString, 7, "restoration status");
    checkNames(c, StatusTracingToString, 6, "tracing status");
    checkNames(c, StatusCoexPairToString, 3, "coexistence status");
    checkNames(c, StatusCritToString, 5, "critical status");
    checkNames(c, StatusTemperatureToString, 4, "temperature status");
    checkNames(c, StatusGWToString, 3, "GW status");
  }
}

static const std::vector<std::pair<std::string, LoggingLevel>> LV = {
    {"default", LoggingLevel::Default},
    {"debug", LoggingLevel::Debug},
    {"ewbgdetailed", LoggingLevel::EWBGDetailed},
    {"progdetailed", LoggingLevel::ProgDetailed},
    {"minimizerdetailed", LoggingLevel::MinimizerDetailed},
    {"transitiondetailed", LoggingLevel::TransitionDetailed},
    {"mintracerdetailed", LoggingLevel::MinTracerDetailed},
    {"bouncedetailed", LoggingLevel::BounceDetailed},
    {"gwdetailed", LoggingLevel::GWDetailed}};

static void c26_logger(Src &s, Ctx &c)
{
  Quiet q;
  std::map<int, bool> on;
  for (int l = 0; l <= 10; l++)
    on[l] = false;
  on[(int)LoggingLevel::Default] = true;
  std::ostringstream second;
  std::string want1, want2, want3, file = scratch_dir() + "/log.txt";
  int sink = 0; // 0 q.os, 1 second, 2 file
  bool usedFile = false;
  auto sync = [&] { want1.clear(), q.os.str(""); };
  int ops = s.integer(3, 25), writes = 0, cut = 0;
  auto complete = [&] {
    for (auto &[n, l] : LV)
      on[(int)l] = l != LoggingLevel::MinimizerDetailed;
    on[(int)LoggingLevel::Complete] = true;
  };
  for (int k = 0; k < ops; k++)
  {
    int op = s.below(11);
    if (op <= 4)
    {
      auto &[n, l]    = LV[s.below(LV.size())];
      std::string txt = "line " + std::to_string(k) + " " + anyValue(s, true);
      int form        = s.below(3);
      if (form == 0) Logger::Write(l, txt);
      if (form == 1) Logger::Write(l, txt, "here.cpp", 12);
      if (form == 2) Logger::Write(l, k * 1.5);
      std::ostringstream o;
      if (form == 0) o << txt << "\n";
      if (form == 1) o << "file: here.cpp; Line: 12; " << txt << "\n";
      if (form == 2) o << k * 1.5 << "\n";
      writes++;
      if (on[(int)l])
        (sink == 0 ? want1 : sink == 1 ? want2 : want3) += o.str();
      else
        cut++;
      c.add("write", n);
    }
    else if (op == 5)
    {
      auto &[n, l] = LV[s.below(LV.size())];
      bool e       = s.boolean();
      Logger::SetLevel(l, e);
      on[(int)l] = e;
      c.add("level", n + (e ? " on" : " off"));
    }
    else if (op == 6)
    {
      std::map<LoggingLevel, bool> m;
      int n = s.integer(0, 5);
      for (int i = 0; i < n; i++)
        m[LV[s.below(LV.size())].second] = s.boolean();
      Logger::SetLevel(m);
      for (auto &[l, e] : m)
        on[(int)l] = e;
      c.add("levels", std::to_string(m.size()));
    }
    else if (op == 7)
    {
      Logger::Disable();
      for (auto &[l, e] : on)
        e = false;
      c.add("disable", "");
    }
    else if (op == 8)
    {
      int to = s.below(3);
      if (to == 0) Logger::SetOStream(q.os);
      if (to == 1) Logger::SetOStream(second);
      if (to == 2)
      {
        Logger::SetOStream(file);
        want3.clear(); // a log file starts empty
        usedFile = true;
      }
      sink = to;
      c.add("sink", std::to_string(to));
    }
    else if (op == 9)
    { // list of arguments, with arguments of other kinds among them
      std::vector<std::string> args;
      int n        = s.integer(0, 4);
      bool disable = s.chance(10), comp = s.chance(10);
      std::vector<std::pair<int, bool>> set;
      for (int i = 0; i < n; i++)
      {
        if (s.chance(40))
        {
          args.push_back(s.pick(std::vector<std::string>{"--model=sm", "x", "", "--logginglevel", "--logginglevel::nosuch=true"}));
          continue;
        }
        auto &[nm, l] = LV[s.below(LV.size())];
        std::string v = s.pick(std::vector<std::string>{"true", "false"});
        args.push_back("--logginglevel::" + nm + "=" + v);
        set.push_back({(int)l, v == "true"});
      }
      if (comp) args.push_back("--logginglevel::complete=true");
      if (disable) args.insert(args.begin() + s.below(args.size() + 1), "--logginglevel::disabled");
      for (auto &a : args)
        c.add("arg", a);
      SetLogger(args);
      if (disable)
        for (auto &[l, e] : on)
          e = false;
      else
      {
        for (auto &[l, e] : set)
          on[l] = e;
        if (comp) complete();
      }
      c.label("argument list");
    }
    else
    { // through the option parser
      bool column = s.boolean();
      auto p      = column ? std::make_unique<parser>(true) : std::make_unique<parser>();
      p->add_argument("model", false);
      std::vector<std::string> args;
      std::map<int, bool> set;
      int n = s.integer(1, 4);
      bool disable = s.chance(10);
      for (int i = 0; i < n; i++)
      {
        auto &[nm, l] = LV[s.below(column ? LV.size() : 5)];
        std::string v = s.pick(std::vector<std::string>{"true", "false"});
        args.push_back("--" + recase(s, "logginglevel::" + nm) + "=" + v);
        set[(int)l] = v == "true";
      }
      bool comp = column && s.chance(10);
      if (comp) args = {"--logginglevel::complete=true"}, set.clear();
      if (disable) args.push_back("--logginglevel::disabled");
      if (s.boolean()) args.push_back("--model=sm");
      for (auto &a : args)
        c.add("option", a);
      p->add_input(args);
      if (disable)
        for (auto &[l, e] : on)
          e = false;
      else
      {
        for (auto &[l, e] : set)
          on[l] = e;
        if (comp) complete();
      }
      c.label("options");
    }
    for (auto &[n, l] : LV)
      if (s.chance(20)) c.check(Logger::GetLoggingLevelStatus(l) == on[(int)l], "status of level " + n, "status");
  }
  if (writes > 1 && cut > 0) c.nontrivial();
  c.check(q.os.str() == want1, "first log: '" + q.os.str() + "' for '" + want1 + "'", "log");
  c.check(second.str() == want2, "second log: '" + second.str() + "' for '" + want2 + "'", "log");
  if (usedFile)
  {
    Logger::SetOStream(q.os);
    std::ifstream f(file);
    std::string got((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
    c.check(got == want3, "log file: '" + got + "' for '" + want3 + "'", "log");
    c.label("file");
  }
}

int main(int argc, char **argv)
{
  std::vector<Property> P;
  P.push_back({"C25",
               {{"options", 72000, 400000, c25_options, "at least two option values given", 150, true},
                {"malformed", 72000, 400000, c25_malformed, "every case", 150, true}},
               {"options are given in one form per call; numbers followed by other text are not judged"}});
  P.push_back({"C26",
               {{"names", 48000, 200000, c26_names, "a name or selection that exists, or a model name that does not"},
                {"logger", 60000, 300000, c26_logger, "at least one line written to a level that is off and two writes"}},
               {"'complete' is not mixed with other levels in one call"}});
  return main_(P, argc, argv);
}
