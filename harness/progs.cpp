// C27, C28: the programs themselves, run in a scratch directory on generated input files.
#include "common.hpp"
#include <BSMPT/minimizer/Minimizer.h>
#include <BSMPT/minimum_tracer/minimum_tracer.h>
#include <BSMPT/transition_tracer/transition_tracer.h>
#include <filesystem>
#include <fstream>
#include <iomanip>
#include <sys/prctl.h>
#include <sys/wait.h>

using namespace pbt;
using namespace BSMPT;
namespace fs = std::filesystem;
using Model  = std::shared_ptr<Class_Potential_Origin>;
using Args   = std::vector<std::pair<std::string, std::string>>;
using Row    = std::vector<std::string>;

static std::string binary(const std::string &prog)
{
  return (fs::read_symlink("/proc/self/exe").parent_path().parent_path() / "prog" / (prog == "TripleHiggsCouplingsNLO" ? "TripleHiggsNLO" : prog)).string();
}

// a scratch directory that goes with the case
struct Dir
{
  fs::path p;
  Dir()
  {
    std::string t = (fs::temp_directory_path() / "progs-XXXXXX").string();
    if (!mkdtemp(t.data())) throw std::runtime_error("no scratch directory");
    p = t;
  }
  ~Dir()
  {
    std::error_code e;
    fs::remove_all(p, e);
  }
  std::string file(const std::string &n) const { return (p / n).string(); }
};

struct Out
{
  int code = -1;    // exit code, or minus the signal
  std::string log;  // standard output and error
};

static std::string slurp(const std::string &f)
{
  std::ifstream i(f);
  std::stringstream s;
  s << i.rdbuf();
  return s.str();
}
static std::vector<Row> table(const std::string &f)
{
  std::vector<Row> r;
  std::ifstream i(f);
  std::string l;
  while (getline(i, l))
  {
    Row w;
    std::size_t a = 0, b;
    while ((b = l.find('\t', a)) != std::string::npos)
      w.push_back(l.substr(a, b - a)), a = b + 1;
    w.push_back(l.substr(a));
    r.push_back(w);
  }
  return r;
}

static Out launch(const Dir &d, const std::string &prog, const std::vector<std::string> &args, double limit = 100, bool hang = false)
{
  static int k = 0;
  std::string log = d.file("log" + std::to_string(k++));
  std::string bin = binary(prog);
  pid_t pid       = fork();
  if (pid == 0)
  {
    struct itimerval off = {};
    setitimer(ITIMER_PROF, &off, nullptr), setitimer(ITIMER_REAL, &off, nullptr);
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    struct rlimit big = {1ul << 33, 1ul << 33}, core = {0, 0}, file = {1ul << 28, 1ul << 28};
    setrlimit(RLIMIT_AS, &big), setrlimit(RLIMIT_CORE, &core), setrlimit(RLIMIT_FSIZE, &file);
    if (chdir(d.p.c_str())) _exit(125);
    int o = open(log.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0600);
    dup2(o, 1), dup2(o, 2);
    std::vector<char *> v{(char *)bin.c_str()};
    for (auto &a : args)
      v.push_back((char *)a.c_str());
    v.push_back(nullptr);
    execv(bin.c_str(), v.data());
    _exit(125);
  }
  Out r;
  int st;
  for (double t = 0; waitpid(pid, &st, WNOHANG) == 0; t += 0.005)
  {
    usleep(5000);
    if (t > limit)
    {
      kill(pid, SIGKILL), waitpid(pid, &st, 0);
      if (hang) throw Failure{"hang", prog + " does not end"};
      std::error_code e;
      fs::remove_all(d.p, e);
      raise(SIGPROF); // no answer
    }
  }
  r.code = WIFEXITED(st) ? WEXITSTATUS(st) : -WTERMSIG(st);
  r.log  = slurp(log);
  if (r.code == 125) throw std::runtime_error("cannot run " + bin);
  return r;
}

// the options in one of the forms the programs accept
static std::vector<std::string> form(Src &s, const Dir &d, const Args &required, const Args &more, bool positional)
{
  std::vector<std::string> r;
  Args all = required;
  all.insert(all.end(), more.begin(), more.end());
  int how = s.below(positional && more.empty() ? 3 : 2);
  if (how == 2)
    for (auto &a : required)
      r.push_back(a.second);
  else
  {
    for (std::size_t i = all.size(); i > 1; i--)
      std::swap(all[i - 1], all[s.below(i)]);
    if (how == 0)
      for (auto &a : all)
        r.push_back("--" + a.first + "=" + a.second);
    else
    {
      std::ofstream f(d.file("options.json"));
      f << "{";
      for (std::size_t i = 0; i < all.size(); i++)
        f << (i ? "," : "") << "\n  \"" << all[i].first << "\": \"" << all[i].second << "\"";
      f << "\n}\n";
      r.push_back("--json=" + d.file("options.json"));
    }
  }
  return r;
}

// an input file
struct Input
{
  std::string model, header, path;
  std::vector<std::string> lines; // lines[0] is line 2 of the file
  std::vector<Point> points;
};
static Input genInput(Src &s, Ctx &c, const Dir &d, const std::string &model, int n, bool spaces = false)
{
  Input in;
  in.model   = model;
  bool index = s.chance(40);
  int extra  = s.chance(50) ? s.integer(1, 3) : 0;
  std::size_t cols = 1;
  for (int i = 0; i < n; i++)
  {
    Point P;
    for (int t = 0;; t++)
    {
      if (t == 6) c.discard();
      P = genPoint(s, model, 0.2);
      if (initPoint(P)) break;
    }
    in.points.push_back(P);
    std::string l = P.line;
    cols          = std::count(l.begin(), l.end(), '\t') + 1;
    if (index) l = std::to_string(s.integer(0, 999)) + "\t" + l;
    for (int e = 0; e < extra; e++)
      l += "\t" + (s.boolean() ? "x" + std::to_string(e) : std::to_string(s.sym(100)));
    if (spaces && s.chance(15)) std::replace(l.begin(), l.end(), '\t', ' ');
    in.lines.push_back(l);
  }
  for (std::size_t i = 0; i < cols + extra; i++)
    in.header += (i || index ? "\t" : "") + ("p" + std::to_string(i));
  in.path = d.file("input.tsv");
  std::ofstream f(in.path);
  f << in.header;
  for (auto &l : in.lines)
    f << "\n" << l;
  if (s.boolean()) f << "\n";
  c.add("model", model);
  c.add("lines", std::to_string(n) + (index ? " with numbers" : "") + (extra ? " and more columns" : ""));
  for (auto &P : in.points)
    c.add("parameters", str(P.par));
  return in;
}

static void same(Ctx &c, const Row &a, const Row &b, double rel, const std::string &what, const std::string &key)
{
  c.check(a.size() == b.size(), what + ": " + std::to_string(a.size()) + " entries in place of " + std::to_string(b.size()), key);
  for (std::size_t i = 0; i < a.size(); i++)
  {
    if (a[i] == b[i]) continue;
    char *e, *g;
    double x = strtod(a[i].c_str(), &e), y = strtod(b[i].c_str(), &g);
    bool num = !a[i].empty() && !b[i].empty() && !*e && !*g;
    c.check(num && ((std::isnan(x) && std::isnan(y)) || std::abs(x - y) <= rel * std::max(std::abs(x), std::abs(y)) + 1e-290), what + ": entry " + std::to_string(i) + " is \"" + a[i] + "\" in place of \"" + b[i] + "\"", key);
  }
}
static Row cells(const std::string &s)
{
  Row w;
  std::size_t a = 0, b;
  while ((b = s.find('\t', a)) != std::string::npos)
    w.push_back(s.substr(a, b - a)), a = b + 1;
  w.push_back(s.substr(a));
  return w;
}
static Row operator+(Row a, const Row &b)
{
  a.insert(a.end(), b.begin(), b.end());
  return a;
}
static Row nums(const Vec &v, int digits)
{
  Row r;
  for (double x : v)
  {
    std::stringstream s;
    s << std::setprecision(digits) << x;
    r.push_back(s.str());
  }
  return r;
}
static std::string text(bool b) { return b ? "true" : "false"; }

// the point as the programs see it: through its line in the file
static Model load(const Input &in, int i)
{
  Model m = fresh(in.model);
  m->setUseIndexCol(in.header);
  m->initModel(in.lines[i]);
  return m;
}

// ------------------------------------------------------------------ C27
static const std::vector<std::string> cheap{"CalcCT", "CalcCT", "CalcCT", "CalcCT", "CalcCT", "TripleHiggsCouplingsNLO", "NLOVEV", "TripleHiggsCouplingsNLO", "BSMPT"};

static void c27_lines(Src &s, Ctx &c)
{
  Dir d;
  std::string prog = s.pick(cheap);
  bool minim       = prog == "NLOVEV" || prog == "BSMPT", triple = prog[0] == 'T';
  std::string model = triple ? s.pick(std::vector<std::string>{"sm", "r2hdm", "cxsm"}) : minim && !c.thorough ? s.pick(std::vector<std::string>{"sm", "cxsm", "r2hdm"}) : s.pick(realModels());
  int n            = prog == "CalcCT" ? s.integer(0, 6) : prog == "NLOVEV" ? s.integer(0, 4) : s.integer(1, 2);
  c.add("program", prog);
  c.label(prog);
  Input in  = genInput(s, c, d, model, n, true);
  int first = s.integer(1, n + 1), last = s.chance(25) ? n + s.integer(2, 4) : s.integer(first, n + 1);
  if (s.chance(5)) first = n + 2, last = n + 4;
  c.add("range", std::to_string(first) + "-" + std::to_string(last));
  Args more;
  if (minim) more = {{"useMultithreading", "false"}, {"useNLopt", text(s.boolean())}, {"useGSL", "true"}};
  std::string o = d.file("out.tsv");
  Args req{{"model", model}, {"input", in.path}, {"output", o}, {"firstLine", std::to_string(first)}, {"lastLine", std::to_string(last)}};
  auto r        = launch(d, prog, form(s, d, req, more, true));
  c.check(r.code == 0, "exit code " + std::to_string(r.code), "code");
  auto t = table(o);
  int lo = std::max(first, 2), hi = std::min(last, n + 1), want = std::max(0, hi - lo + 1);
  c.check(!t.empty(), "no header", "rows");
  c.check((int)t.size() - 1 == want, std::to_string(t.size() - 1) + " rows for " + std::to_string(want) + " lines", "rows");
  Row head = cells(in.header);
  c.check(t[0].size() > head.size() && std::equal(head.begin(), head.end(), t[0].begin()), "the header does not begin with that of the input", "header");
  for (int i = 0; i < want; i++)
  {
    auto &row = t[i + 1];
    Row input = cells(in.lines[lo + i - 2]);
    c.check(row.size() >= input.size() && std::equal(input.begin(), input.end(), row.begin()), "row " + std::to_string(i) + " does not begin with the line of the input", "columns");
    c.check(row.size() - input.size() == t[0].size() - head.size(), std::to_string(row.size() - input.size()) + " values for " + std::to_string(t[0].size() - head.size()) + " labels", "values");
  }
  if (want == 0) return;
  c.nontrivial();
  // each row on its own
  int i = s.below(want);
  std::string o2 = d.file("single.tsv"), l = std::to_string(lo + i);
  Args one{{"model", model}, {"input", in.path}, {"output", o2}, {"firstLine", l}, {"lastLine", l}};
  r = launch(d, prog, form(s, d, one, more, true));
  c.check(r.code == 0, "exit code " + std::to_string(r.code), "code");
  auto u = table(o2);
  c.check(u.size() == 2, "one row for one line", "rows");
  same(c, u[0], t[0], 0, "header", "header");
  same(c, t[i + 1], u[1], 1e-5, "row " + std::to_string(i) + " by itself", "independent");
}

// programs of the tracers
static Args tracerOptions(Src &s, const std::string &prog)
{
  Args more{{"usemultithreading", "false"}, {"thigh", std::to_string(s.integer(60, 180))}};
  if (s.boolean()) more.push_back({"checkewsr", s.boolean() ? "off" : "on"});
  if (s.boolean()) more.push_back({"num_pts", std::to_string(s.integer(2, 12))});
  if (s.chance(40)) more.push_back({"multistepmode", s.boolean() ? "default" : "0"});
  if (prog != "MinimaTracer")
  {
    more.push_back({"maxpathintegrations", "3"});
    more.push_back({"checknlo", s.boolean() ? "on" : "off"});
    if (s.boolean()) more.push_back({"vwall", s.chance(30) ? "-1" : std::to_string(s.real(0.1, 1))});
    if (s.boolean()) more.push_back({"perc_prbl", std::to_string(s.real(0.4, 0.9))});
    if (s.boolean()) more.push_back({"compl_prbl", std::to_string(s.real(0.005, 0.2))});
    if (prog == "CalcGW" && s.boolean()) more.push_back({"epsturb", s.chance(30) ? "-1" : std::to_string(s.unit())});
    if (prog == "CalcGW" && s.boolean()) more.push_back({"trans_temp", s.pick(std::vector<std::string>{"nucl_approx", "nucl", "perc", "compl"})});
  }
  return more;
}
static const std::vector<std::string> tracers{"MinimaTracer", "CalcTemps", "CalcGW"};
static std::string tracerModel(Src &s, Ctx &c) { return s.pick(c.thorough ? std::vector<std::string>{"sm", "cxsm", "r2hdm", "c2hdm", "cpinthedark"} : std::vector<std::string>{"sm", "sm", "cxsm", "r2hdm"}); }

static int column(const Row &head, const std::string &name)
{
  for (std::size_t i = 0; i < head.size(); i++)
    if (head[i] == name) return i;
  return -1;
}

static void c27_tracers(Src &s, Ctx &c)
{
  Dir d;
  std::string prog = s.pick(tracers), model = tracerModel(s, c);
  int n            = s.integer(1, c.thorough ? 3 : 2);
  c.add("program", prog);
  c.label(prog);
  Input in  = genInput(s, c, d, model, n);
  int first = s.integer(1, n + 1), last = s.chance(25) ? n + s.integer(2, 3) : s.integer(first, n + 1);
  c.add("range", std::to_string(first) + "-" + std::to_string(last));
  Args more = tracerOptions(s, prog);
  for (auto &m : more)
    c.add(m.first, m.second);
  int lo = std::max(first, 2), hi = std::min(last, n + 1), want = std::max(0, hi - lo + 1);
  Row head = cells(in.header);
  auto run = [&](const std::string &o, int a, int b) {
    Args req{{"model", model}, {"input", in.path}, {"output", o}, {"firstline", std::to_string(a)}, {"lastline", std::to_string(b)}};
    auto r = launch(d, prog, form(s, d, req, more, true));
    c.check(r.code == 0, "exit code " + std::to_string(r.code), "code");
  };
  auto row = [&](const Row &h, const Row &x, int line) {
    Row input = cells(in.lines[line - 2]);
    c.check(h.size() > head.size() && std::equal(head.begin(), head.end(), h.begin()), "the header does not begin with that of the input", "header");
    c.check(x.size() >= input.size() && std::equal(input.begin(), input.end(), x.begin()), "the row does not begin with line " + std::to_string(line) + " of the input", "columns");
    c.check(x.size() - input.size() == h.size() - head.size(), std::to_string(x.size() - input.size()) + " values for " + std::to_string(h.size() - head.size()) + " labels", "values");
  };
  std::string o = d.file("out.tsv"), o2 = d.file("single.tsv");
  run(o, first, last);
  if (prog == "MinimaTracer")
  {
    int files = 0;
    for (auto &e : fs::directory_iterator(d.p))
      files += e.path().filename().string().rfind("out.tsv_", 0) == 0;
    c.check(files == want, std::to_string(files) + " files for " + std::to_string(want) + " lines", "rows");
    if (want == 0) return;
    int pick = s.below(want);
    run(o2, lo + pick, lo + pick);
    for (int i = 0; i < want; i++)
    {
      auto t = table(o + "_" + std::to_string(i + 1) + ".tsv");
      c.check(t.size() >= 2, "file " + std::to_string(i + 1) + " without rows", "rows");
      for (std::size_t k = 1; k < t.size(); k++)
        row(t[0], t[k], lo + i);
      c.check(t[0].back() == "runtime", "the last label is " + t[0].back(), "header");
      if (t.size() > 3) c.nontrivial();
      if (i != pick) continue;
      auto u = table(o2 + "_1.tsv");
      c.check(u.size() == t.size(), std::to_string(t.size()) + " rows, and " + std::to_string(u.size()) + " for the line by itself", "independent");
      for (std::size_t k = 0; k < u.size(); k++)
      {
        if (k) t[k].back() = u[k].back() = "";
        same(c, t[k], u[k], 1e-9, "line by itself", "independent");
      }
    }
    return;
  }
  if (want == 0)
  {
    c.check(table(o).size() <= 1, "rows without lines", "rows");
    return;
  }
  auto t = table(o);
  c.check((int)t.size() - 1 == want, std::to_string((int)t.size() - 1) + " rows for " + std::to_string(want) + " lines", "rows");
  for (int i = 0; i < want; i++)
    row(t[0], t[i + 1], lo + i);
  int pick = s.below(want);
  run(o2, lo + pick, lo + pick);
  auto u = table(o2);
  c.check(u.size() == 2, "one row for one line", "rows");
  // by label: columns of other points are filled with nan
  Row a = t[pick + 1], h = t[0];
  std::size_t off = head.size(), shift = cells(in.lines[lo + pick - 2]).size();
  c.check(h.back() == "transition_history" && u[0].back() == "transition_history", "the last label is " + h.back(), "header");
  for (std::size_t k = off; k < h.size(); k++)
  {
    if (h[k] == "runtime") continue;
    int q         = -1;
    for (std::size_t z = off; z < u[0].size(); z++)
      if (u[0][z] == h[k]) q = z;
    std::string x = a[k - off + shift];
    if (q < 0)
      c.check(x == "nan", h[k] + " is " + x + " for a point without this transition", "padding");
    else
      same(c, {x}, {u[1][q - off + shift]}, 1e-9, h[k] + " by itself", "independent");
  }
  for (std::size_t z = off; z < u[0].size(); z++)
    c.check(column(h, u[0][z]) >= 0, "the label " + u[0][z] + " is missing", "header");
  if (column(h, "T_crit_0") >= 0) c.nontrivial();
}

// requests that cannot be met
static void c27_reject(Src &s, Ctx &c)
{
  Dir d;
  std::string prog = s.pick(std::vector<std::string>{"CalcCT", "NLOVEV", "BSMPT", "TripleHiggsCouplingsNLO", "VEVEVO", "PotPlotter", "MinimaTracer", "CalcTemps", "CalcGW"});
  bool tracer      = prog == "MinimaTracer" || prog == "CalcTemps" || prog == "CalcGW", single = prog == "VEVEVO" || prog == "PotPlotter";
  bool minim       = tracer || prog == "NLOVEV" || prog == "BSMPT" || prog == "VEVEVO";
  int n            = s.integer(1, 3);
  Input in         = genInput(s, c, d, "sm", n);
  std::string o    = d.file("out.tsv");
  Args req{{"model", "sm"}, {"input", in.path}, {"output", o}}, more;
  if (!single)
  {
    std::string F = tracer ? "firstline" : "firstLine", L = tracer ? "lastline" : "lastLine";
    req.push_back({F, "2"}), req.push_back({L, std::to_string(n + 1)});
  }
  else
  {
    req.push_back({"line", "2"});
    if (prog == "VEVEVO")
      for (auto &x : Args{{"temperatureStart", "0"}, {"temperatureStep", "50"}, {"temperatureEnd", "100"}})
        req.push_back(x);
    else
    {
      req.push_back({"temperature", "0"});
      more = {{"npoints1", "3"}, {"low1", "0"}, {"high1", "10"}};
    }
  }
  auto set = [&](const std::string &k, const std::string &v) {
    for (auto *l : {&req, &more})
      for (auto &a : *l)
        if (a.first == k)
        {
          a.second = v;
          return;
        }
    more.push_back({k, v});
  };
  std::vector<std::pair<std::string, std::function<void()>>> bad;
  auto add = [&](const std::string &k, const std::string &v) { bad.push_back({k + "=" + v, [=] { set(k, v); }}); };
  add("model", s.pick(std::vector<std::string>{"", "smm", "2hdm", "notset", "r2hdm "}));
  bad.push_back({"missing option", [&] { req.erase(req.begin() + s.below(req.size())); }});
  bad.push_back({"unknown option", [&] { more.push_back({s.pick(std::vector<std::string>{"foo", "lines", "modell", "x"}), "1"}); }});
  add("input", d.file("none.tsv"));
  add("output", d.file("none/out.tsv"));
  std::string word = s.pick(std::vector<std::string>{"", "x", "two", "-"});
  if (!single)
  {
    std::string F = req[3].first, L = req[4].first;
    add(F, "0"), add(F, "-1"), add(F, word), add(L, word), add(F, std::to_string(n + 2)), add(L, "1"), add(L, "-3"), add(L, "99999999999999999999");
    bad.push_back({"negative range", [=] { set(F, "-3"), set(L, "-2"); }});
  }
  else
    add("line", std::to_string(n + s.integer(2, 4))), add("line", "1"), add("line", "0"), add("line", "-2"), add("line", word);
  if (minim)
  {
    bad.push_back({"no minimiser", [=] { set(tracer ? "usegsl" : "useGSL", "false"), set(tracer ? "usenlopt" : "useNLopt", "false"); }});
    add(tracer ? "usecmaes" : "useCMAES", "true");
  }
  if (prog == "VEVEVO") add("temperatureStep", "0"), add("temperatureStep", "-5"), add("temperatureStart", "-1"), add("temperatureStart", "101"), add("temperatureEnd", "x");
  if (prog == "PotPlotter")
  {
    add("temperature", "-5"), add("npoints1", "-1"), add("low1", "20"), add("npoints2", "2"), add("point", "1,2"), add("slice", "true");
    bad.push_back({"slice in two dimensions", [=] { set("slice", "true"), set("min_start", "0,0"), set("min_end", "1,1"); }});
  }
  if (tracer) add("thigh", "0"), add("thigh", "-10"), add("thigh", "x"), add("multistepmode", "4"), add("multistepmode", "-2"), add("multistepmode", "x"), add("num_pts", "-1");
  if (tracer && prog != "MinimaTracer") add("vwall", "0"), add("vwall", "1.5"), add("vwall", "-0.5"), add("perc_prbl", "1.2"), add("perc_prbl", "-0.1"), add("compl_prbl", "2"), add("compl_prbl", "-1");
  if (prog == "CalcGW") add("epsturb", "1.5"), add("epsturb", "-0.3"), add("trans_temp", "perk");
  if (tracer && s.chance(20)) add("checkewsr", "maybe");
  if (tracer && prog != "MinimaTracer" && s.chance(20)) add("checknlo", "maybe");
  auto &b = bad[s.below(bad.size())];
  b.second();
  c.add("program", prog);
  c.add("request", b.first);
  c.label(prog);
  auto r = launch(d, prog, form(s, d, req, more, false), 100, true);
  c.check(r.code > 0, "exit code " + std::to_string(r.code), "accepted");
  c.check(r.code < 128, "exit code " + std::to_string(r.code), "crash");
  int rows = 0;
  for (auto &e : fs::directory_iterator(d.p))
    if (e.path().filename().string().rfind("out.tsv", 0) == 0) rows += std::max<int>(0, (int)table(e.path().string()).size() - 1);
  c.check(rows == 0, std::to_string(rows) + " rows", "accepted");
  c.nontrivial();
}

// ------------------------------------------------------------------ C28
static void compare(Ctx &c, const std::vector<Row> &t, const std::vector<Row> &want, double rel)
{
  c.check(t.size() == want.size(), std::to_string(t.size()) + " lines of output in place of " + std::to_string(want.size()), "rows");
  for (std::size_t i = 0; i < t.size(); i++)
    same(c, t[i], want[i], rel, i ? "row " + std::to_string(i) : "header", i ? "value" : "label");
}

static void c28_ct(Src &s, Ctx &c)
{
  Dir d;
  Input in      = genInput(s, c, d, s.pick(realModels()), s.integer(1, 4));
  std::string o = d.file("out.tsv");
  Args req{{"model", in.model}, {"input", in.path}, {"output", o}, {"firstLine", "2"}, {"lastLine", std::to_string(in.lines.size() + 1)}};
  auto r = launch(d, "CalcCT", form(s, d, req, {}, true));
  c.check(r.code == 0, "exit code " + std::to_string(r.code), "code");
  std::vector<Row> want{cells(in.header) + fresh(in.model)->addLegendCT()};
  for (std::size_t i = 0; i < in.lines.size(); i++)
  {
    Model m = fresh(in.model);
    want.push_back(cells(in.lines[i]) + nums(m->initModel(in.points[i].par), 6));
  }
  compare(c, table(o), want, 1e-5);
  c.nontrivial();
}

static void c28_couplings(Src &s, Ctx &c)
{
  Dir d;
  Input in      = genInput(s, c, d, s.pick(c.thorough ? realModels() : std::vector<std::string>{"sm", "cxsm", "r2hdm", "c2hdm"}), 1);
  std::string o = d.file("out.tsv");
  Args req{{"model", in.model}, {"input", in.path}, {"output", o}, {"firstLine", "2"}, {"lastLine", "2"}};
  auto r = launch(d, "TripleHiggsCouplingsNLO", form(s, d, req, {}, true));
  c.check(r.code == 0, "exit code " + std::to_string(r.code), "code");
  Model m  = fresh(in.model);
  auto ct  = m->initModel(in.points[0].par);
  m->Prepare_Triple(), m->TripleHiggsCouplings();
  Vec v;
  std::size_t n = m->get_NHiggs();
  for (std::size_t i = 0; i < n; i++)
    for (std::size_t j = i; j < n; j++)
      for (std::size_t k = j; k < n; k++)
        v.push_back(-m->get_TripleHiggsCorrectionsTreePhysical(i, j, k)), v.push_back(-m->get_TripleHiggsCorrectionsCTPhysical(i, j, k)), v.push_back(-m->get_TripleHiggsCorrectionsCWPhysical(i, j, k));
  compare(c, table(o), {cells(in.header) + m->addLegendCT() + m->addLegendTripleCouplings(), cells(in.lines[0]) + nums(ct, 6) + nums(v, 6)}, 1e-5);
  c.nontrivial();
}

struct Mini
{
  int which;
  Args more;
};
static Mini minimiser(Src &s, bool lower)
{
  bool g = s.chance(70), n = !g || s.chance(70);
  auto k = [&](std::string x) {
    if (lower)
      for (auto &ch : x)
        ch = tolower(ch);
    return x;
  };
  Mini m{(g ? 2 : 0) + (n ? 4 : 0), {{k("useGSL"), text(g)}, {k("useNLopt"), text(n)}, {k("useMultithreading"), "false"}}};
  return m;
}

static std::string minimModel(Src &s, Ctx &c) { return s.pick(c.thorough ? realModels() : std::vector<std::string>{"sm", "sm", "cxsm", "r2hdm", "c2hdm"}); }

static void c28_nlovev(Src &s, Ctx &c)
{
  Dir d;
  Input in      = genInput(s, c, d, minimModel(s, c), s.integer(1, 2));
  Mini mi       = minimiser(s, false);
  std::string o = d.file("out.tsv");
  Args req{{"model", in.model}, {"input", in.path}, {"output", o}, {"firstLine", "2"}, {"lastLine", std::to_string(in.lines.size() + 1)}};
  c.add("minimiser", std::to_string(mi.which));
  auto r = launch(d, "NLOVEV", form(s, d, req, mi.more, true));
  c.check(r.code == 0, "exit code " + std::to_string(r.code), "code");
  std::vector<Row> want{cells(in.header) + fresh(in.model)->addLegendCT() + fresh(in.model)->addLegendVEV() + Row{"v_NLO"}};
  for (std::size_t i = 0; i < in.lines.size(); i++)
  {
    Model m = fresh(in.model);
    auto ct = m->initModel(in.points[i].par);
    Vec chk, sol = Minimizer::Minimize_gen_all(m, 0, chk, m->get_vevTreeMin(), mi.which, false);
    want.push_back(cells(in.lines[i]) + nums(ct, 6) + nums(sol, 6) + nums({m->EWSBVEV(m->MinimizeOrderVEV(sol))}, 6));
  }
  compare(c, table(o), want, 1e-5);
  c.nontrivial();
}

static void c28_bsmpt(Src &s, Ctx &c)
{
  Dir d;
  Input in      = genInput(s, c, d, s.pick(c.thorough ? realModels() : std::vector<std::string>{"sm", "cxsm", "r2hdm", "r2hdm"}), 1);
  Mini mi       = minimiser(s, false);
  if (!c.thorough && in.model == "r2hdm") mi = {4, {{"useGSL", "false"}, {"useNLopt", "true"}, {"useMultithreading", "false"}}};
  std::string o = d.file("out.tsv");
  Args req{{"model", in.model}, {"input", in.path}, {"output", o}, {"firstLine", "2"}, {"lastLine", "2"}};
  c.add("minimiser", std::to_string(mi.which));
  auto r = launch(d, "BSMPT", form(s, d, req, mi.more, true));
  c.check(r.code == 0, "exit code " + std::to_string(r.code), "code");
  Model m = fresh(in.model);
  auto ct = m->initModel(in.points[0].par);
  auto pt = Minimizer::PTFinder_gen_all(m, 0, 300, mi.which, false);
  bool ok = pt.StatusFlag == Minimizer::MinimizerStatus::SUCCESS && pt.vc > C_PT * pt.Tc;
  c.label(ok ? "transition" : "none");
  compare(c, table(o), {cells(in.header) + m->addLegendCT() + m->addLegendTemp(), cells(in.lines[0]) + nums(ct, 6) + nums({pt.Tc, pt.vc, ok ? pt.vc / pt.Tc : (double)(int)pt.StatusFlag}, 6) + nums(pt.EWMinimum, 6)}, 1e-5);
  c.nontrivial();
}

static void c28_vevevo(Src &s, Ctx &c)
{
  Dir d;
  Input in      = genInput(s, c, d, minimModel(s, c), s.integer(1, 3));
  Mini mi       = minimiser(s, false);
  int line      = s.below(in.lines.size());
  double a      = s.chance(40) ? 0 : s.integer(0, 150), step = s.pick(Vec{5, 12.5, 30, 0.1, 100}), b = a + (s.integer(0, 4) + (s.boolean() ? 0.5 : 0)) * step;
  std::string o = d.file("out.tsv");
  Args req{{"model", in.model}, {"input", in.path}, {"output", o}, {"line", std::to_string(line + 2)}, {"temperatureStart", std::to_string(a)}, {"temperatureStep", std::to_string(step)}, {"temperatureEnd", std::to_string(b)}};
  a = std::stod(std::to_string(a)), step = std::stod(std::to_string(step)), b = std::stod(std::to_string(b));
  c.add("line", std::to_string(line + 2));
  c.add("temperatures", str(Vec{a, step, b}));
  auto r = launch(d, "VEVEVO", form(s, d, req, mi.more, true));
  c.check(r.code == 0, "exit code " + std::to_string(r.code), "code");
  Model m = load(in, line);
  std::vector<Row> want{Row{"T", "v"} + m->addLegendVEV() + Row{"Veff(v,T)"}};
  Vec sol = m->get_vevTreeMin();
  for (double T = a; T <= b; T += step)
  {
    Vec chk, start = sol;
    sol   = Minimizer::Minimize_gen_all(m, T, chk, start, mi.which, false);
    Vec p = m->MinimizeOrderVEV(sol);
    want.push_back(nums({T, m->EWSBVEV(p)}, 16) + nums(sol, 16) + nums({m->VEff(p, T, 0)}, 16));
  }
  compare(c, table(o), want, 1e-9);
  c.nontrivial();
}

static void c28_plotter(Src &s, Ctx &c)
{
  Dir d;
  Input in      = genInput(s, c, d, s.pick(realModels()), s.integer(1, 3));
  int line      = s.below(in.lines.size());
  Model m       = load(in, line);
  std::size_t k = m->get_nVEV();
  double T      = s.chance(30) ? 0 : s.chance(50) ? s.integer(0, 300) : s.real(0, 300);
  auto txt = [](double x) {
    std::stringstream q;
    q << std::setprecision(17) << x;
    return q.str();
  };
  auto num = [&] { return s.chance(50) ? (double)s.integer(-300, 300) : s.chance(50) ? s.sym(300) : (double)s.integer(-2, 2); };
  auto list = [&](const Vec &v) {
    std::string r;
    for (std::size_t i = 0; i < v.size(); i++)
      r += (i ? "," : "") + txt(v[i]);
    return r;
  };
  std::string o = d.file("out.tsv");
  Args req{{"model", in.model}, {"input", in.path}, {"output", o}, {"line", std::to_string(line + 2)}, {"temperature", txt(T)}}, more;
  std::vector<Row> want;
  auto val = [&](const Vec &v) { return m->VEff(m->MinimizeOrderVEV(v), T); };
  c.add("line", std::to_string(line + 2));
  c.add("temperature", txt(T));
  if (s.chance(35))
  {
    Vec a(k), b(k);
    for (auto *v : {&a, &b})
      for (double &x : *v)
        x = num();
    int n = s.chance(20) ? 100 : s.integer(1, 20);
    more  = {{"slice", "true"}, {"min_start", list(a)}, {"min_end", list(b)}};
    if (n != 100 || s.boolean()) more.push_back({"npoints", std::to_string(n)});
    c.add("slice", list(a) + " to " + list(b) + " in " + std::to_string(n));
    want.push_back(m->addLegendVEV() + Row{"Veff(v,T)", "T"});
    for (int i = 0; i <= n; i++)
    {
      Vec v(k);
      for (std::size_t j = 0; j < k; j++)
        v[j] = a[j] + (b[j] - a[j]) * i / n;
      want.push_back(nums(v, 16) + nums({val(v), T}, 16));
    }
    c.label("slice");
  }
  else
  {
    Vec p(k, 0), lo(k, 0), hi(k, 0);
    std::vector<int> n(k, 0);
    if (s.boolean())
    {
      for (double &x : p)
        x = num();
      more.push_back({"point", list(p)});
    }
    int dims = 0;
    for (std::size_t j = 0; j < k; j++)
      if (dims < 2 && s.chance(50))
      {
        n[j]  = s.integer(1, 6);
        lo[j] = num(), hi[j] = num();
        if (lo[j] > hi[j]) std::swap(lo[j], hi[j]);
        std::string i = std::to_string(j + 1);
        more.push_back({"npoints" + i, std::to_string(n[j])}), more.push_back({"low" + i, txt(lo[j])}), more.push_back({"high" + i, txt(hi[j])});
        c.add("direction " + i, std::to_string(n[j]) + " steps from " + txt(lo[j]) + " to " + txt(hi[j]));
        dims++;
      }
    c.add("reference", list(p));
    Row names = m->addLegendVEV(), pts = names;
    for (auto &x : pts)
      x += "_point";
    want.push_back(names + pts + Row{"Veff(v,T)", "Veff(point,T)", "T"});
    std::vector<int> i(k, 0);
    for (;;)
    {
      Vec v(k);
      for (std::size_t j = 0; j < k; j++)
        v[j] = n[j] ? lo[j] + (hi[j] - lo[j]) * i[j] / n[j] : p[j];
      want.push_back(nums(v, 16) + nums(p, 16) + nums({val(v), val(p), T}, 16));
      int j = k - 1;
      for (; j >= 0; j--)
      {
        if (++i[j] <= n[j]) break;
        i[j] = 0;
      }
      if (j < 0) break;
    }
    c.label("grid in " + std::to_string(dims));
  }
  auto r = launch(d, "PotPlotter", form(s, d, req, more, false));
  c.check(r.code == 0, "exit code " + std::to_string(r.code), "code");
  auto t = table(o);
  c.check(t.size() == want.size(), std::to_string(t.size()) + " lines of output in place of " + std::to_string(want.size()), "rows");
  same(c, t[0], want[0], 0, "header", "label");
  for (std::size_t i = 1; i < t.size(); i++)
  {
    c.check(t[i].size() == want[i].size(), "number of values", "rows");
    for (std::size_t j = 0; j < t[i].size(); j++)
    {
      double x = atof(t[i][j].c_str()), y = atof(want[i][j].c_str());
      bool pot = want[0][j].rfind("Veff", 0) == 0;
      c.close(x, y, pot ? 1e-7 : 1e-12, pot ? 1e-3 : 1e-10, "row " + std::to_string(i) + ", " + want[0][j], "value");
    }
  }
  c.nontrivial();
}

static void c28_minima(Src &s, Ctx &c)
{
  Dir d;
  Input in      = genInput(s, c, d, tracerModel(s, c), 1);
  Mini mi       = minimiser(s, true);
  std::string o = d.file("out.tsv");
  Args req{{"model", in.model}, {"input", in.path}, {"output", o}, {"firstline", "2"}, {"lastline", "2"}}, more = mi.more;
  int mode = -1, pts = 10;
  bool ewsr = true;
  double T = 300;
  if (s.chance(80) || !c.thorough) T = c.thorough ? s.integer(60, 250) : s.integer(40, 130), more.push_back({"thigh", std::to_string((int)T)});
  if (s.chance(40)) mode = s.integer(-1, 0), more.push_back({"multistepmode", mode < 0 ? "default" : "0"});
  if (s.boolean()) pts = s.integer(1, 12), more.push_back({"num_pts", std::to_string(pts)});
  if (s.boolean()) ewsr = s.boolean(), more.push_back({"checkewsr", ewsr ? "on" : "off"});
  for (auto &m : more)
    c.add(m.first, m.second);
  auto r = launch(d, "MinimaTracer", form(s, d, req, more, true));
  c.check(r.code == 0, "exit code " + std::to_string(r.code), "code");
  Model m = fresh(in.model);
  auto ct = m->initModel(in.points[0].par);
  auto tr = std::make_shared<MinimumTracer>(m, mi.which, false);
  auto nlo = tr->GetStatusNLOVEV(m->CheckNLOVEV(tr->ConvertToVEVDim(tr->GetGlobalMinimum(0))));
  StatusEWSR ew = StatusEWSR::Off;
  if (ewsr) ew = tr->GetStatusEWSR(tr->IsThereEWSymmetryRestoration());
  Vacuum vac(0, T, tr, m, mode, pts, true);
  auto name = [](auto x) {
    std::stringstream q;
    q << x;
    return q.str();
  };
  Row head = cells(in.header) + m->addLegendCT() + Row{"status_nlo_stability", "status_ewsr", "status_tracing"};
  std::size_t len = 1;
  for (std::size_t i = 0; i < vac.PhasesList.size(); i++)
  {
    std::string t = "Temp_" + std::to_string(i);
    head.push_back(t);
    for (auto &x : m->addLegendVEV())
      head.push_back(x + "(" + t + ")");
    head.push_back("Veff(" + t + ")");
    len = std::max(len, vac.PhasesList[i].MinimumPhaseVector.size());
  }
  std::vector<Row> want{head + Row{"runtime"}};
  for (std::size_t j = 0; j < len; j++)
  {
    Row w = cells(in.lines[0]) + nums(ct, 16) + Row{name(nlo), name(ew), name(vac.status_vacuum)};
    for (auto &p : vac.PhasesList)
      if (j < p.MinimumPhaseVector.size())
      {
        auto &q = p.MinimumPhaseVector[j];
        w       = w + nums({q.temp}, 16) + nums(q.point, 16) + nums({q.potential}, 16);
      }
      else
        w = w + Row(m->get_nVEV() + 2, "nan");
    want.push_back(w + Row{""});
  }
  auto t = table(o + "_1.tsv");
  for (std::size_t i = 1; i < t.size(); i++)
  {
    char *e;
    double x = strtod(t[i].back().c_str(), &e);
    c.check(!*e && x >= 0 && x < 1e5, "runtime " + t[i].back(), "value");
    t[i].back() = "";
  }
  compare(c, t, want, 1e-9);
  if (vac.PhasesList.size()) c.nontrivial();
  c.label("phases " + std::to_string(vac.PhasesList.size()));
}

static void c28_temps(Src &s, Ctx &c)
{
  Dir d;
  bool gw       = s.boolean();
  bool sm       = s.chance(c.thorough ? 25 : 80); // with a weak transition at 159 GeV
  Input in      = genInput(s, c, d, sm ? "sm" : tracerModel(s, c), 1);
  Mini mi       = minimiser(s, true);
  std::string o = d.file("out.tsv");
  Args req{{"model", in.model}, {"input", in.path}, {"output", o}, {"firstline", "2"}, {"lastline", "2"}}, more = mi.more;
  user_input u;
  u.modelPointer = fresh(in.model);
  auto ct        = u.modelPointer->initModel(in.points[0].par);
  auto real = [&](const char *n, double &x, double v) {
    x = v;
    std::stringstream q;
    q << std::setprecision(17) << v;
    more.push_back({n, q.str()});
  };
  u.T_low = 0, u.T_high = 300, u.vwall = 0.95, u.perc_prbl = 0.71, u.compl_prbl = 0.01, u.epsturb = 0.1, u.multistepmode = -1, u.num_points = 10, u.ewsr_check = 1, u.nlo_check = 1, u.which_minimizer = mi.which, u.use_multithreading = false, u.gw_calculation = gw, u.which_transition_temp = 3;
  if (s.chance(80) || !c.thorough) real("thigh", u.T_high, sm ? s.integer(162, 220) : s.integer(60, c.thorough ? 250 : 180));
  if (s.boolean()) real("vwall", u.vwall, s.chance(40) ? s.integer(-2, -1) : s.real(0.05, 1));
  if (s.boolean()) real("perc_prbl", u.perc_prbl, s.real(0.3, 0.95));
  if (s.boolean()) real("compl_prbl", u.compl_prbl, s.real(0.005, 0.25));
  if (gw && s.boolean()) real("epsturb", u.epsturb, s.chance(30) ? -1 : s.unit());
  u.maxpathintegrations = s.integer(2, 4), more.push_back({"maxpathintegrations", std::to_string(u.maxpathintegrations)});
  if (s.chance(40)) u.multistepmode = s.integer(-1, 0), more.push_back({"multistepmode", u.multistepmode < 0 ? "default" : "0"});
  if (s.boolean()) u.num_points = s.integer(1, 12), more.push_back({"num_pts", std::to_string(u.num_points)});
  if (s.chance(70)) u.ewsr_check = s.integer(0, 3), more.push_back({"checkewsr", std::vector<std::string>{"off", "on", "keep_bfb", "keep_ewsr"}[u.ewsr_check]});
  if (s.boolean()) u.nlo_check = s.boolean(), more.push_back({"checknlo", u.nlo_check ? "on" : "off"});
  if (gw && s.boolean()) u.which_transition_temp = s.integer(1, 4), more.push_back({"trans_temp", std::vector<std::string>{"nucl_approx", "nucl", "perc", "compl"}[u.which_transition_temp - 1]});
  for (auto &m : more)
    c.add(m.first, m.second);
  auto r = launch(d, gw ? "CalcGW" : "CalcTemps", form(s, d, req, more, true));
  c.check(r.code == 0, "exit code " + std::to_string(r.code), "code");
  TransitionTracer tr(u);
  auto &out = tr.output_store;
  auto name = [](auto x) {
    std::stringstream q;
    q << x;
    return q.str();
  };
  Row w = cells(in.lines[0]) + nums(ct, 17) + Row{name(out.status.status_nlo_stability), name(out.status.status_ewsr), name(out.status.status_tracing), name(out.status.status_coex_pairs), ""};
  if (out.status.status_tracing == StatusTracing::Success && out.status.status_coex_pairs == StatusCoexPair::Success)
    for (std::size_t i = 0; i < out.vec_trans_data.size(); i++)
    {
      auto &t = out.vec_trans_data[i];
      auto one = [&](auto st, const std::optional<double> &T, const Vec &f, const Vec &b) { w = w + Row{name(st)} + nums({T.value_or(NAN)}, 17) + nums(f, 17) + nums(b, 17); };
      one(out.status.status_crit[i], t.crit_temp, t.crit_false_vev, t.crit_true_vev);
      w.push_back(name(out.status.status_bounce_sol[i]));
      one(out.status.status_nucl_approx[i], t.nucl_approx_temp, t.nucl_approx_false_vev, t.nucl_approx_true_vev);
      one(out.status.status_nucl[i], t.nucl_temp, t.nucl_false_vev, t.nucl_true_vev);
      one(out.status.status_perc[i], t.perc_temp, t.perc_false_vev, t.perc_true_vev);
      one(out.status.status_compl[i], t.compl_temp, t.compl_false_vev, t.compl_true_vev);
      if (!gw) continue;
      auto &g = out.vec_gw_data[i];
      w.push_back(name(g.status_gw));
      for (auto x : {g.trans_temp, g.vwall, g.alpha, g.beta_over_H, g.K_sw, g.fpeak_sw, g.h2Omega_sw, g.SNR_sw, g.K_turb, g.fpeak_turb, g.h2Omega_turb, g.SNR_turb, g.SNR})
        w = w + nums({x.value_or(NAN)}, 17);
      c.nontrivial();
    }
  w.push_back(out.transition_history);
  auto t = table(o);
  std::size_t at = cells(in.lines[0]).size() + ct.size() + 4;
  if (t.size() > 1 && t[1].size() > at)
  {
    char *e;
    double x = strtod(t[1][at].c_str(), &e);
    c.check(!*e && x >= 0 && x < 1e5, "runtime " + t[1][at], "value");
    t[1][at] = "";
  }
  compare(c, t, {cells(in.header) + u.modelPointer->addLegendCT() + out.legend, w}, 1e-9);
  c.label(out.vec_trans_data.empty() ? "none" : "transition");
  if (!out.vec_trans_data.empty()) c.nontrivial();
}

int main(int argc, char **argv)
{
  std::vector<pbt::Property> P;
  P.push_back({"C27",
               {{"lines", 100, 4000, c27_lines, "at least one line is requested", 300},
                {"reject", 300, 6000, c27_reject, "a request that cannot be met", 300},
                {"tracers", 8, 300, c27_tracers, "phases or transitions in the output", 100}},
               {}});
  P.push_back({"C28",
               {{"ct", 120, 4000, c28_ct, "all", 100},
                {"couplings", 16, 200, c28_couplings, "all", 300},
                {"nlovev", 24, 1500, c28_nlovev, "all", 300},
                {"bsmpt", 6, 300, c28_bsmpt, "all", 300},
                {"vevevo", 24, 1500, c28_vevevo, "all", 300},
                {"plotter", 160, 6000, c28_plotter, "all", 100},
                {"minima", 4, 300, c28_minima, "phases", 300},
                {"temps", 8, 300, c28_temps, "transitions", 80}},
               {}});
  return main_(P, argc, argv);
}
