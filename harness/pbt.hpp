// Small property-based testing engine.
//
// A case is a sequence of bounded integer choices.  The generator functions of
// Src turn choices into structured values, so a case can be replayed from its
// choice list, and shrunk by deleting / zeroing / lowering choices.  Cases run
// in forked workers: crashes, aborts and runaway loops of the code under test
// are outcomes of a case, not of the check.
#pragma once
#include <algorithm>
#include <atomic>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <dirent.h>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <iomanip>
#include <iostream>
#include <map>
#include <set>
#include <signal.h>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace pbt
{
struct Discard
{
};
struct Failure
{
  std::string key, msg;
};

inline uint64_t splitmix(uint64_t &s)
{
  uint64_t z = (s += 0x9e3779b97f4a7c15ULL);
  z          = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z          = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}
inline uint64_t fnv(const std::string &s, uint64_t h = 1469598103934665603ULL)
{
  for (unsigned char c : s)
  {
    h ^= c;
    h *= 1099511628211ULL;
  }
  return h;
}

// Choices and description of the case being run, readable by the parent after a crash
struct Mirror
{
  std::size_t n;
  uint64_t ch[20000];
  std::size_t nd;
  char desc[4096];
};
inline Mirror *&mirror()
{
  static Mirror *m = nullptr;
  return m;
}

class Src
{
public:
  std::vector<uint64_t> choices; // what was drawn
  // rng mode
  explicit Src(uint64_t seed) : rng(seed), replaying(false) {}
  // replay mode
  explicit Src(std::vector<uint64_t> r) : given(std::move(r)), replaying(true) {}

  // uniform in [0, n)
  uint64_t below(uint64_t n)
  {
    if (n == 0) n = 1;
    uint64_t v;
    if (replaying)
      v = pos < given.size() ? given[pos] % n : 0;
    else
      v = splitmix(rng) % n;
    pos++;
    choices.push_back(v);
    if (Mirror *m = mirror(); m && m->n < 20000) m->ch[m->n++] = v;
    return v;
  }
  int integer(int lo, int hi) { return lo + (int)below((uint64_t)(hi - lo) + 1); }
  bool boolean() { return below(2) == 1; }
  bool chance(int percent) { return (int)below(100) >= 100 - percent; } // shrinks to false
  double unit() { return (double)below(1ULL << 32) / 4294967296.0; }
  double real(double lo, double hi) { return lo + (hi - lo) * unit(); }
  double logreal(double lo, double hi) { return lo * std::exp(std::log(hi / lo) * unit()); }
  double sym(double a) // in (-a, a), shrinks to 0
  {
    double u = unit() * a;
    return boolean() ? -u : u;
  }
  double normal()
  {
    double u1 = 1.0 - unit(), u2 = unit();
    return std::sqrt(-2 * std::log(u1)) * std::cos(2 * M_PI * u2);
  }
  template <class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
  template <class F, class = decltype(std::declval<F>()())> std::vector<double> vec(std::size_t n, F f)
  {
    std::vector<double> r(n);
    for (auto &x : r)
      x = f();
    return r;
  }
  std::vector<double> vec(std::size_t n, double a)
  {
    std::vector<double> r(n);
    for (auto &x : r)
      x = sym(a);
    return r;
  }

private:
  uint64_t rng = 0;
  std::vector<uint64_t> given;
  std::size_t pos = 0;
  bool replaying;
};

template <class T> inline std::string str(const T &v)
{
  std::ostringstream o;
  o << std::setprecision(17) << v;
  return o.str();
}
template <class T> inline std::string str(const std::vector<T> &v)
{
  std::ostringstream o;
  o << std::setprecision(17) << "[";
  for (std::size_t i = 0; i < v.size(); i++)
    o << (i ? ", " : "") << v[i];
  o << "]";
  return o.str();
}
template <class T> inline std::string str(const std::vector<std::vector<T>> &v)
{
  std::string o = "[";
  for (std::size_t i = 0; i < v.size(); i++)
    o += (i ? ", " : "") + str(v[i]);
  return o + "]";
}

// Per-case context
struct Ctx
{
  bool thorough = false;
  bool nontriv  = false;
  std::string desc;
  std::vector<std::string> labels;
  std::ostringstream note;
  void nontrivial(bool b = true) { nontriv = nontriv || b; }
  void label(const std::string &s) { labels.push_back(s); }
  template <class T> Ctx &add(const std::string &k, const T &v)
  {
    desc += (desc.empty() ? "" : "; ") + k + "=" + str(v);
    if (Mirror *m = mirror())
    {
      m->nd = std::min(desc.size(), sizeof m->desc);
      memcpy(m->desc, desc.data(), m->nd);
    }
    return *this;
  }
  [[noreturn]] void fail(const std::string &msg, const std::string &key = "") { throw Failure{key, msg}; }
  void check(bool ok, const std::string &msg, const std::string &key = "")
  {
    if (!ok) throw Failure{key, msg};
  }
  // |a-b| <= rel*max(|a|,|b|) + abs, and neither is NaN
  void close(double a, double b, double rel, double abs, const std::string &what, const std::string &key = "")
  {
    double tol = rel * std::max(std::abs(a), std::abs(b)) + abs;
    if (!(std::abs(a - b) <= tol))
      throw Failure{key, what + ": got " + str(a) + ", expected " + str(b) + " (difference " + str(a - b) +
                             ", tolerance " + str(tol) + ")"};
  }
  [[noreturn]] void discard() { throw Discard{}; }
  void assume(bool b)
  {
    if (!b) throw Discard{};
  }
};

struct Sub
{
  std::string name;
  int quick, thorough;
  std::function<void(Src &, Ctx &)> fn;
  std::string rule;
  double cpu_s     = 150;   // per-case CPU limit (seconds)
  bool hang_is_bug = false; // exceeding it is a violation (termination is claimed)
  int workers      = 0;     // 0: all cores
  double works     = 0;     // at least this part of the cases must be non-trivial (a result has to be found)
};

struct Property
{
  std::string id;
  std::vector<Sub> subs;
  std::vector<std::string> assumptions;
  std::function<void()> init; // run once before forking
};

inline std::string jesc(const std::string &s)
{
  std::string o;
  for (unsigned char c : s)
  {
    if (c == '"' || c == '\\')
      o += '\\', o += (char)c;
    else if (c == '\n')
      o += "\\n";
    else if (c == '\t')
      o += "\\t";
    else if (c < 32 || c > 126)
    {
      char b[8];
      snprintf(b, 8, "\\u%04x", c);
      o += b;
    }
    else
      o += (char)c;
  }
  return o;
}

enum Kind
{
  OK       = 'O',
  DISC     = 'D',
  FAIL     = 'F',
  CRASH    = 'C',
  TIMEOUT  = 'T',
  EXCEPT   = 'E'
};

struct Result
{
  char kind = OK;
  bool nontriv = false;
  uint64_t hash = 0;
  std::string key, msg, desc;
  std::vector<std::string> labels;
  std::vector<uint64_t> choices;
};

inline uint64_t hash_choices(const std::vector<uint64_t> &c)
{
  uint64_t h = 1469598103934665603ULL;
  for (auto v : c)
  {
    h ^= v;
    h *= 1099511628211ULL;
    h ^= h >> 29;
  }
  return h;
}

inline Result run_inline(const Sub &sub, Src &src, bool thorough)
{
  Result r;
  Ctx ctx;
  ctx.thorough = thorough;
  try
  {
    sub.fn(src, ctx);
    r.kind = OK;
  }
  catch (Discard &)
  {
    r.kind = DISC;
  }
  catch (Failure &f)
  {
    r.kind = FAIL;
    r.key  = f.key;
    r.msg  = f.msg;
  }
  catch (std::exception &e)
  {
    r.kind = EXCEPT;
    r.msg  = std::string("unexpected exception: ") + e.what();
  }
  catch (const char *e)
  {
    r.kind = EXCEPT;
    r.msg  = std::string("unexpected exception: ") + e;
  }
  catch (...)
  {
    r.kind = EXCEPT;
    r.msg  = "unexpected exception of unknown type";
  }
  r.nontriv = ctx.nontriv;
  r.desc    = ctx.desc;
  r.labels  = ctx.labels;
  r.choices = src.choices;
  r.hash    = hash_choices(src.choices);
  return r;
}

inline void wr(std::string &o, const std::string &s)
{
  uint32_t n = s.size();
  o.append((char *)&n, 4);
  o += s;
}
inline std::string rd(const std::string &b, std::size_t &p)
{
  uint32_t n;
  memcpy(&n, b.data() + p, 4);
  p += 4;
  std::string s = b.substr(p, n);
  p += n;
  return s;
}
inline std::string ser(const Result &r, int idx)
{
  std::string body;
  body.append((char *)&idx, 4);
  body += r.kind;
  body += (char)r.nontriv;
  body.append((char *)&r.hash, 8);
  wr(body, r.key);
  wr(body, r.msg.substr(0, 8000));
  wr(body, r.desc.substr(0, 4000));
  uint32_t n = r.labels.size();
  body.append((char *)&n, 4);
  for (auto &l : r.labels)
    wr(body, l);
  bool keep = r.kind != OK && r.kind != DISC;
  n         = keep ? r.choices.size() : 0;
  body.append((char *)&n, 4);
  if (keep) body.append((char *)r.choices.data(), 8 * n);
  std::string o;
  wr(o, body);
  return o;
}
inline Result deser(const std::string &b, int &idx)
{
  Result r;
  std::size_t p = 0;
  memcpy(&idx, b.data(), 4);
  p         = 4;
  r.kind    = b[p++];
  r.nontriv = b[p++];
  memcpy(&r.hash, b.data() + p, 8);
  p += 8;
  r.key  = rd(b, p);
  r.msg  = rd(b, p);
  r.desc = rd(b, p);
  uint32_t n;
  memcpy(&n, b.data() + p, 4);
  p += 4;
  for (uint32_t i = 0; i < n; i++)
    r.labels.push_back(rd(b, p));
  memcpy(&n, b.data() + p, 4);
  p += 4;
  r.choices.resize(n);
  if (n) memcpy(r.choices.data(), b.data() + p, 8 * n);
  return r;
}

inline void quiet()
{
  int fd = open("/dev/null", O_WRONLY);
  dup2(fd, 1);
  if (!getenv("PBT_DEBUG")) dup2(fd, 2);
  close(fd);
}
// CPU-time limit for the next case
inline void arm(double s)
{
  struct itimerval it;
  memset(&it, 0, sizeof it);
  it.it_value.tv_sec  = (long)s;
  it.it_value.tv_usec = (long)((s - (long)s) * 1e6);
  setitimer(ITIMER_PROF, &it, nullptr);
  // a deadlock uses no CPU time
  if (s > 0) it.it_value.tv_sec = (long)(4 * s) + 30;
  setitimer(ITIMER_REAL, &it, nullptr);
}
inline bool timed_out(int st) { return WIFSIGNALED(st) && (WTERMSIG(st) == SIGPROF || WTERMSIG(st) == SIGALRM); }
inline std::string crash_msg(int st)
{
  if (WIFSIGNALED(st))
    return std::string("the process was killed by signal ") + std::to_string(WTERMSIG(st)) + " (" +
           strsignal(WTERMSIG(st)) + ")";
  return "the process exited with code " + std::to_string(WEXITSTATUS(st));
}

struct Shm
{
  std::atomic<int> next;
  std::atomic<int> stop_at; // no index above this is started
  std::atomic<int> cur[256];
};
inline double now()
{
  struct timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + 1e-9 * t.tv_nsec;
}

// run one case in a forked child
inline Result run_forked(const Sub &sub, const std::vector<uint64_t> &choices, bool thorough)
{
  static Mirror *mir =
      (Mirror *)mmap(nullptr, sizeof(Mirror), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  mir->n = mir->nd = 0;
  int p[2];
  if (pipe(p)) _exit(99);
  fflush(stdout);
  pid_t pid = fork();
  if (pid == 0)
  {
    close(p[0]);
    quiet();
    mirror() = mir;
    arm(sub.cpu_s);
    Src s(choices);
    Result r      = run_inline(sub, s, thorough);
    std::string o = ser(r, 0);
    std::size_t k = 0;
    while (k < o.size())
    {
      ssize_t w = write(p[1], o.data() + k, o.size() - k);
      if (w <= 0) break;
      k += w;
    }
    _exit(0);
  }
  close(p[1]);
  std::string buf;
  char tmp[65536];
  ssize_t n;
  while ((n = read(p[0], tmp, sizeof tmp)) > 0)
    buf.append(tmp, n);
  close(p[0]);
  int st;
  waitpid(pid, &st, 0);
  if (buf.size() > 4 && WIFEXITED(st) && WEXITSTATUS(st) == 0)
  {
    std::size_t q = 0;
    int idx;
    return deser(rd(buf, q), idx);
  }
  Result r;
  r.choices.assign(mir->ch, mir->ch + mir->n);
  r.desc.assign(mir->desc, mir->nd);
  if (timed_out(st))
  {
    r.kind = TIMEOUT;
    r.msg  = "no result after " + str(sub.cpu_s) + " s of CPU time";
  }
  else
  {
    r.kind = CRASH;
    r.msg  = crash_msg(st);
  }
  return r;
}

inline bool bad(const Sub &sub, const Result &r)
{
  return r.kind == FAIL || r.kind == CRASH || r.kind == EXCEPT || (r.kind == TIMEOUT && sub.hang_is_bug);
}

inline Result shrink(const Sub &sub, Result best, bool thorough, double budget_s)
{
  double t0 = now();
  int tries = 0;
  auto attempt = [&](const std::vector<uint64_t> &c) {
    if (now() - t0 > budget_s || tries > 2000) return false;
    tries++;
    Result r = run_forked(sub, c, thorough);
    if (bad(sub, r) && r.kind == best.kind && r.key == best.key)
    {
      if (r.choices.empty()) r.choices = c;
      best = r;
      return true;
    }
    return false;
  };
  bool progress = true;
  while (progress && now() - t0 < budget_s)
  {
    progress = false;
    for (std::size_t len : {32, 8, 4, 2, 1})
      for (std::size_t i = 0; i + len <= best.choices.size();)
      {
        auto c = best.choices;
        c.erase(c.begin() + i, c.begin() + i + len);
        auto before = best.choices.size();
        if (attempt(c) && best.choices.size() < before)
          progress = true;
        else
          i += len;
        if (now() - t0 > budget_s) break;
      }
    for (std::size_t i = 0; i < best.choices.size(); i++)
    {
      uint64_t v = best.choices[i];
      if (!v) continue;
      auto c = best.choices;
      c[i]   = 0;
      if (attempt(c))
      {
        progress = true;
        continue;
      }
      for (int bits : {31, 28, 24, 16, 8})
      {
        if (v < (1ULL << bits)) continue;
        c    = best.choices;
        c[i] = (v >> bits) << bits;
        if (c[i] != v && attempt(c))
        {
          progress = true;
          break;
        }
      }
      if (now() - t0 > budget_s) break;
    }
  }
  return best;
}

struct Finding
{
  int sub;
  int index;
  Result r;
};

inline std::string verif_dir()
{
  const char *v = getenv("VERIF_DIR");
  return v ? v : "/verif";
}

inline std::string scratch_dir()
{
  static std::string d;
  static pid_t owner = 0;
  if (d.empty() || owner != getpid())
  {
    const char *base = getenv("PBT_SCRATCH");
    std::string t    = std::string(base ? base : "/tmp") + "/pbt.XXXXXX";
    std::vector<char> b(t.begin(), t.end());
    b.push_back(0);
    if (!mkdtemp(b.data())) throw std::runtime_error("mkdtemp");
    d     = b.data();
    owner = getpid();
  }
  return d;
}

struct Options
{
  uint64_t seed = 1;
  bool thorough = false;
  std::string only, replay;
  double scale = 1;
};

inline std::string read_file(const std::string &p)
{
  std::ifstream f(p, std::ios::binary);
  std::stringstream s;
  s << f.rdbuf();
  return s.str();
}

inline void save_replay(const std::string &path, const Property &P, const Sub &sub, const Result &r, const Options &o)
{
  std::ofstream f(path);
  f << "property " << P.id << "\nsub " << sub.name << "\ntier " << (o.thorough ? "thorough" : "quick");
  if (r.choices.empty() && r.key == "works")
    f << "\nbatch " << o.seed << " " << o.scale;
  f << "\nchoices";
  for (auto c : r.choices)
    f << " " << c;
  f << "\n# " << (r.key.empty() ? "" : "[" + r.key + "] ");
  std::string m = r.msg;
  std::replace(m.begin(), m.end(), '\n', ' ');
  f << m << "\n# case: " << r.desc << "\n";
}

int run(Property &P, const Options &o);
inline int replay(Property &P, const std::string &path)
{
  std::ifstream f(path);
  std::string line, sub, tier;
  std::vector<uint64_t> c;
  while (std::getline(f, line))
  {
    std::istringstream s(line);
    std::string w;
    s >> w;
    if (w == "sub") s >> sub;
    if (w == "tier") s >> tier;
    if (w == "batch")
    {
      Options o;
      s >> o.seed >> o.scale;
      o.only = sub, o.thorough = tier == "thorough";
      return run(P, o);
    }
    if (w == "choices")
    {
      uint64_t v;
      while (s >> v)
        c.push_back(v);
    }
  }
  for (auto &sb : P.subs)
    if (sb.name == sub)
    {
      Result r = run_forked(sb, c, tier == "thorough");
      std::cout << "case: " << r.desc << "\n";
      if (bad(sb, r))
      {
        std::cout << "FAILS [" << r.key << "] " << r.msg << "\nVIOLATION property=" << P.id << " replay=" << path << "\n";
        return 1;
      }
      std::cout << "passes (" << r.kind << ") " << r.msg << "\n";
      return 0;
    }
  std::cout << "no sub-check named " << sub << "\n";
  return 1;
}

// known findings file: lines  "known: property=<id> key=<key> <text>"
inline std::map<std::string, std::string> load_known(const std::string &id)
{
  std::map<std::string, std::string> k;
  std::ifstream f(verif_dir() + "/known-findings.txt");
  std::string line;
  while (std::getline(f, line))
  {
    if (line.rfind("known:", 0) != 0) continue;
    std::istringstream s(line.substr(6));
    std::string p, key, rest;
    s >> p >> key;
    std::getline(s, rest);
    if (p == "property=" + id && key.rfind("key=", 0) == 0) k[key.substr(4)] = rest;
  }
  return k;
}

inline int run(Property &P, const Options &o)
{
  double t0 = now();
  if (P.init) P.init();
  auto known = load_known(P.id);
  std::set<std::string> known_seen;
  int ncpu = sysconf(_SC_NPROCESSORS_ONLN);
  if (ncpu < 1) ncpu = 1;
  if (ncpu > 64) ncpu = 64;
  Shm *shm = (Shm *)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);

  struct Stat
  {
    std::string name;
    long evals = 0, disc = 0, nontriv = 0, timeouts = 0, knownhits = 0;
    std::map<std::string, long> labels;
    double wall = 0;
  };
  std::vector<Stat> stats;
  std::vector<std::string> samples;
  std::vector<Finding> findings;
  std::vector<std::string> flaky;
  std::unordered_set<uint64_t> distinct;
  long evals = 0;

  for (std::size_t si = 0; si < P.subs.size(); si++)
  {
    const Sub &sub = P.subs[si];
    if (!o.only.empty() && o.only != sub.name) continue;
    double ts = now();
    Stat st;
    st.name = sub.name;
    int N   = (int)((o.thorough ? sub.thorough : sub.quick) * o.scale + 0.5);
    if (N < 1) N = 1;
    uint64_t base = fnv(P.id + "/" + sub.name) ^ (o.seed * 0x9e3779b97f4a7c15ULL);
    shm->next     = 0;
    shm->stop_at  = N;
    // leave the later sub-checks their share of the time
    double budget   = getenv("PBT_BUDGET") ? atof(getenv("PBT_BUDGET")) : o.thorough ? 7200 : 500;
    double deadline = ts + std::max(10.0, 1.5 * (budget - (ts - t0)) / (P.subs.size() - si));
    int W         = sub.workers ? std::min(sub.workers, ncpu) : ncpu;
    W             = std::min(W, N);
    std::vector<int> fds(W);
    std::vector<pid_t> pids(W);
    auto spawn = [&](int w) {
      fflush(stdout);
      std::cout.flush();
      pid_t pid = fork();
      if (pid == 0)
      {
        quiet();
        std::string buf;
        for (;;)
        {
          int i = shm->next++;
          if (i >= N || i > shm->stop_at) break;
          if (now() > deadline)
          {
            shm->next = N;
            break;
          }
          shm->cur[w]   = i;
          uint64_t seed = base + 0x51ed270b7a6f1234ULL * (uint64_t)(i + 1);
          splitmix(seed);
          Src s(seed);
          arm(sub.cpu_s);
          Result r = run_inline(sub, s, o.thorough);
          arm(0);
          std::string out = ser(r, i);
          std::size_t k   = 0;
          while (k < out.size())
          {
            ssize_t n = write(fds[w], out.data() + k, out.size() - k);
            if (n <= 0) _exit(98);
            k += n;
          }
          shm->cur[w] = -1;
          if (bad(sub, r) && !known.count(r.key))
          {
            int e = shm->stop_at;
            while (i < e && !shm->stop_at.compare_exchange_weak(e, i))
              ;
          }
        }
        _exit(0);
      }
      pids[w] = pid;
    };
    for (int w = 0; w < W; w++)
    {
      fds[w]      = memfd_create("pbt", 0);
      shm->cur[w] = -1;
      spawn(w);
    }
    std::vector<std::pair<int, Result>> extra;
    int alive = W;
    while (alive > 0)
    {
      int stt;
      pid_t pid = waitpid(-1, &stt, 0);
      if (pid < 0) break;
      int w = -1;
      for (int i = 0; i < W; i++)
        if (pids[i] == pid) w = i;
      if (w < 0) continue;
      if (WIFEXITED(stt) && WEXITSTATUS(stt) == 0)
      {
        alive--;
        continue;
      }
      int i = shm->cur[w];
      if (i >= 0)
      {
        Result r;
        // recover the choices by regenerating in replay is impossible here; keep the seed as marker
        if (timed_out(stt))
        {
          r.kind = TIMEOUT;
          r.msg  = "no result after " + str(sub.cpu_s) + " s of CPU time";
        }
        else
        {
          r.kind = CRASH;
          r.msg  = crash_msg(stt);
        }
        extra.push_back({i, r});
        if (bad(sub, r))
        {
          int e = shm->stop_at;
          while (i < e && !shm->stop_at.compare_exchange_weak(e, i))
            ;
        }
      }
      shm->cur[w] = -1;
      if (shm->next < N && shm->next <= shm->stop_at)
        spawn(w);
      else
        alive--;
    }
    std::vector<std::pair<int, Result>> all = extra;
    for (int w = 0; w < W; w++)
    {
      off_t len = lseek(fds[w], 0, SEEK_END);
      std::string b(len, 0);
      lseek(fds[w], 0, SEEK_SET);
      off_t k = 0;
      while (k < len)
      {
        ssize_t n = read(fds[w], &b[k], len - k);
        if (n <= 0) break;
        k += n;
      }
      close(fds[w]);
      std::size_t p = 0;
      while (p + 4 <= b.size())
      {
        uint32_t n;
        memcpy(&n, b.data() + p, 4);
        if (p + 4 + n > b.size()) break;
        int idx;
        Result r = deser(rd(b, p), idx);
        all.push_back({idx, r});
      }
    }
    std::sort(all.begin(), all.end(), [](auto &a, auto &b) { return a.first < b.first; });
    int nsamp = 0;
    const Result *first = nullptr;
    int firsti          = -1;
    for (auto &[i, r] : all)
    {
      st.evals++;
      if (r.kind == DISC) st.disc++;
      if (r.kind == TIMEOUT && !sub.hang_is_bug) st.timeouts++;
      for (auto &l : r.labels)
        st.labels[l]++;
      if (r.nontriv && r.kind != DISC)
      {
        st.nontriv++;
        distinct.insert(r.hash ^ fnv(sub.name));
      }
      if (r.kind == OK && r.nontriv && nsamp < 2 && !r.desc.empty())
      {
        samples.push_back(sub.name + ": " + r.desc.substr(0, 600));
        nsamp++;
      }
      if (bad(sub, r))
      {
        if (!r.key.empty() && known.count(r.key))
        {
          known_seen.insert(r.key);
          st.knownhits++;
        }
        else if (!first)
        {
          first  = &r;
          firsti = i;
        }
      }
    }
    evals += st.evals;
    if (!first && sub.works > 0 && st.evals >= 40 && st.nontriv < sub.works * st.evals)
    {
      Result m;
      m.kind = FAIL;
      m.key  = "works";
      m.msg  = "only " + std::to_string(st.nontriv) + " of " + std::to_string(st.evals) + " cases gave a result (expected at least " +
              std::to_string((int)(100 * sub.works)) + " percent)";
      for (auto &[l, n] : st.labels)
        m.desc += l + ":" + std::to_string(n) + " ";
      if (!known.count(m.key)) findings.push_back({(int)si, -1, m});
    }
    if (first)
    {
      Result r = *first;
      if (r.choices.empty())
      { // crashed: regenerate the choices by running with a recording pipe
        int p[2];
        if (pipe(p)) _exit(97);
        uint64_t seed = base + 0x51ed270b7a6f1234ULL * (uint64_t)(firsti + 1);
        splitmix(seed);
        // draw a long prefix: replay takes choices modulo the bound, and the
        // generator draws raw values modulo the bound as well
        uint64_t s2 = seed;
        for (int k = 0; k < 20000; k++)
          r.choices.push_back(splitmix(s2));
        close(p[0]);
        close(p[1]);
      }
      // confirm three times in fresh processes
      int hits = 0;
      Result last;
      for (int k = 0; k < 3; k++)
      {
        Result q = run_forked(sub, r.choices, o.thorough);
        if (bad(sub, q) && !known.count(q.key))
        {
          hits++;
          last = q;
        }
      }
      if (hits == 3)
      {
        if (last.choices.empty()) last.choices = r.choices;
        Result m = shrink(sub, last, o.thorough, sub.cpu_s > 200 ? 20 : 45);
        findings.push_back({(int)si, firsti, m});
      }
      else
        flaky.push_back(sub.name + " case " + std::to_string(firsti) + ": failed once, then " + std::to_string(hits) +
                        "/3 on replay: " + r.msg);
    }
    st.wall = now() - ts;
    stats.push_back(st);
    std::cout << P.id << "/" << st.name << ": " << st.evals << " cases, " << st.nontriv << " non-trivial, " << st.disc
              << " discarded, " << st.timeouts << " without an answer, " << std::fixed << std::setprecision(1) << st.wall
              << " s" << std::defaultfloat;
    for (auto &[l, n] : st.labels)
      std::cout << " " << l << ":" << n;
    std::cout << (first ? "  <-- FAILURE" : "") << std::endl;
    if (!findings.empty() && !getenv("PBT_KEEP_GOING")) break;
  }

  // evidence
  std::ostringstream e;
  e << std::setprecision(6);
  e << "{\n \"property\": \"" << P.id << "\",\n \"tier\": \"" << (o.thorough ? "thorough" : "quick")
    << "\",\n \"seed\": " << o.seed << ",\n \"level\": \"exploration\",\n \"coverage\": {\n  \"evaluations\": " << evals
    << ",\n  \"distinct_nontrivial\": " << distinct.size() << ",\n  \"rule\": \"";
  std::string rule = "A case is a list of random choices turned into structured input; distinct = distinct choice lists. "
                     "Non-trivial, per sub-check: ";
  for (auto &s : P.subs)
    rule += "[" + s.name + "] " + s.rule + " ";
  e << jesc(rule) << "\",\n  \"samples\": [";
  for (std::size_t i = 0; i < samples.size(); i++)
    e << (i ? "," : "") << "\n   \"" << jesc(samples[i]) << "\"";
  e << "\n  ],\n  \"subchecks\": [";
  for (std::size_t i = 0; i < stats.size(); i++)
  {
    auto &s = stats[i];
    e << (i ? "," : "") << "\n   {\"name\": \"" << jesc(s.name) << "\", \"cases\": " << s.evals
      << ", \"nontrivial\": " << s.nontriv << ", \"discarded\": " << s.disc << ", \"no_answer\": " << s.timeouts
      << ", \"known_finding_hits\": " << s.knownhits << ", \"wall_s\": " << s.wall << ", \"labels\": {";
    bool f = true;
    for (auto &[l, n] : s.labels)
    {
      e << (f ? "" : ", ") << "\"" << jesc(l) << "\": " << n;
      f = false;
    }
    e << "}}";
  }
  e << "\n  ],\n  \"not_reproduced\": [";
  for (std::size_t i = 0; i < flaky.size(); i++)
    e << (i ? "," : "") << "\"" << jesc(flaky[i]) << "\"";
  e << "]\n },\n \"assumptions\": [";
  for (std::size_t i = 0; i < P.assumptions.size(); i++)
    e << (i ? "," : "") << "\n  \"" << jesc(P.assumptions[i]) << "\"";
  e << "\n ],\n \"wall_s\": " << now() - t0 << ",\n \"violations\": " << findings.size() << "\n}\n";
  if (o.only.empty())
  {
    mkdir((verif_dir() + "/evidence").c_str(), 0755);
    std::ofstream f(verif_dir() + "/evidence/" + P.id + ".json");
    f << e.str();
  }
  for (auto &f : flaky)
    std::cout << "NOT-REPRODUCED " << f << "\n";
  for (auto &k : known_seen)
    std::cout << "KNOWN-FINDING: property=" << P.id << " [" << k << "]" << known[k] << "\n";
  if (!findings.empty())
  {
    mkdir((verif_dir() + "/replays").c_str(), 0755);
    for (auto &f : findings)
    {
      const Sub &sub = P.subs[f.sub];
      char h[32];
      snprintf(h, 32, "%016llx", (unsigned long long)hash_choices(f.r.choices));
      std::string path = verif_dir() + "/replays/" + P.id + "-" + sub.name + "-" + h + ".txt";
      save_replay(path, P, sub, f.r, o);
      std::cout << "in " << sub.name << (f.r.key.empty() ? "" : " [" + f.r.key + "]") << ": " << f.r.msg
                << "\n  case: " << f.r.desc << "\n";
      std::cout << "VIOLATION property=" << P.id << " replay=" << path << std::endl;
    }
    return 1;
  }
  return 0;
}

inline int main_(std::vector<Property> props, int argc, char **argv)
{
  Options o;
  std::string id;
  if (const char *s = getenv("VERIF_SEED")) o.seed = strtoull(s, nullptr, 10);
  if (const char *t = getenv("VERIF_TIER")) o.thorough = std::string(t) == "thorough";
  if (const char *t = getenv("PBT_SCALE")) o.scale = atof(t);
  for (int i = 1; i < argc; i++)
  {
    std::string a = argv[i];
    if (a == "--only")
      o.only = argv[++i];
    else if (a == "--replay")
      o.replay = argv[++i];
    else if (a == "--thorough")
      o.thorough = true;
    else if (a == "--quick")
      o.thorough = false;
    else if (a == "--seed")
      o.seed = strtoull(argv[++i], nullptr, 10);
    else
      id = a;
  }
  for (auto &p : props)
    if (p.id == id)
    {
      if (!o.replay.empty())
      {
        if (p.init) p.init();
        return replay(p, o.replay);
      }
      return run(p, o);
    }
  std::cerr << "unknown property " << id << "\n";
  return 2;
}
} // namespace pbt
