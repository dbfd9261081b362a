// The search driver: many seeded runs, each in its own forked process; determinism
// gates; minimisation; replay files; evidence.
#include "rt.hpp"

#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <math.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <fstream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

namespace sim
{
static scenario* g_scen;
scenario::scenario(const char* p, const char* n, void (*f)(), unsigned w)
    : property{p}, name{n}, fn{f}, weight{w}, next{g_scen}
{
  g_scen = this;
}
}
using namespace sim;

static double now_s()
{
  timespec t;
  REAL(clock_gettime)(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}
static void real_sleep_us(long us)
{
  timespec t{0, us * 1000};
  REAL(nanosleep)(&t, nullptr);
}
template <typename T>
static T* shared(size_t n = 1)
{
  void* p = mmap(
      nullptr, sizeof(T) * n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if(p == MAP_FAILED)
  {
    perror("mmap");
    exit(2);
  }
  return (T*)p;
}
static constexpr double RUN_TIMEOUT = 60;

// run one execution in a child; returns false when the harness itself misbehaved
static pid_t start_run(const scenario* sc, const run_input& in, result* out)
{
  memset(out, 0, offsetof(result, stream));
  pid_t p = fork();
  if(p == 0)
    run_child(*sc, in, out);
  return p;
}
static void wait_run(pid_t p, result* out)
{
  double t0 = now_s();
  int st = 0;
  long us = 200;
  for(;;)
  {
    pid_t r = waitpid(p, &st, us ? WNOHANG : 0);
    if(r == p)
      break;
    if(now_s() - t0 > RUN_TIMEOUT)
    {
      kill(p, SIGKILL);
      waitpid(p, &st, 0);
      out->status = 2;
      strcpy(out->cls, "hang");
      strcpy(out->msg, "the run did not end: a loop without any scheduling point");
      out->hash = 0;
      return;
    }
    real_sleep_us(us);
    if(us < 5000)
      us += us / 4;
  }
  if(out->status == 0)
  {
    out->status = 3;
    snprintf(out->cls, sizeof out->cls, "sim-error");
    snprintf(out->msg, sizeof out->msg, "the run's process ended with status %x without a verdict", st);
  }
  if(out->status == 2 && !strncmp(out->cls, "sim-error", 9))
    out->status = 3;
}
static void one_run(const scenario* sc, const run_input& in, result* out)
{
  pid_t p = start_run(sc, in, out);
  wait_run(p, out);
}

struct options
{
  std::string prop, replay, evidence, findings, only, replay_dir = "/verif/replays", tier = "quick";
  uint64_t seed = 1;
  long runs = 500;
  double cap = 100;
  int jobs = 8;
  bool verbose = false, list = false, keep_going = false;
  long det = 0, index = -1;
  std::string assumptions;
};
static uint64_t hash64(uint64_t x)
{
  x += 0x9E3779B97F4A7C15ull;
  x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
  x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
  return x ^ (x >> 31);
}
static std::vector<const scenario*> pool(const options& o)
{
  std::vector<const scenario*> v;
  for(auto s = g_scen; s; s = s->next)
    if(o.prop == s->property && (o.only.empty() || o.only == s->name))
      v.push_back(s);
  std::sort(v.begin(), v.end(), [](auto a, auto b) { return strcmp(a->name, b->name) < 0; });
  std::vector<const scenario*> r;
  for(auto s : v)
    for(unsigned i = 0; i < s->weight; i++)
      r.push_back(s);
  return r;
}
static std::string js(const std::string& s)
{
  std::string r = "\"";
  for(unsigned char c : s)
  {
    if(c == '"' || c == '\\')
    {
      r += '\\';
      r += c;
    }
    else if(c == '\n')
      r += "\\n";
    else if(c < 32 || c > 126)
    {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      r += b;
    }
    else
      r += c;
  }
  return r + "\"";
}

struct streams
{
  std::vector<uint32_t> v[3];
};
static streams grab(const result* r)
{
  streams s;
  for(int i = 0; i < 3; i++)
    s.v[i].assign(r->stream[i], r->stream[i] + r->len[i]);
  return s;
}
static run_input input_of(const streams& s, bool verbose = false)
{
  run_input in{};
  in.replay = true;
  in.verbose = verbose;
  for(int i = 0; i < 3; i++)
  {
    in.stream[i] = s.v[i].data();
    in.len[i] = s.v[i].size();
  }
  return in;
}
static bool truncated(const result* r)
{
  for(int i = 0; i < 3; i++)
    if(r->len[i] >= STREAM_CAP)
      return true;
  return false;
}

// ---- minimisation
struct minimiser
{
  const scenario* sc;
  std::string cls;
  std::vector<result*> bufs;
  double deadline;
  long trials = 0;
  streams best;
  // evaluates the candidates side by side, keeps the first that still fails
  int eval(std::vector<streams>& c)
  {
    std::vector<pid_t> p(c.size());
    std::vector<run_input> in(c.size());
    for(size_t i = 0; i < c.size(); i++)
    {
      in[i] = input_of(c[i]);
      p[i] = start_run(sc, in[i], bufs[i]);
    }
    int ok = -1;
    for(size_t i = 0; i < c.size(); i++)
    {
      wait_run(p[i], bufs[i]);
      trials++;
      if(ok < 0 && bufs[i]->status == 2 && cls == bufs[i]->cls)
        ok = i;
    }
    return ok;
  }
  bool out_of_time() { return now_s() > deadline; }
  static void trim(streams& s)
  {
    for(auto& v : s.v)
      while(!v.empty() && v.back() == 0)
        v.pop_back();
  }
  // tries the candidates in groups; returns index of the accepted one
  template <typename Gen>
  bool try_all(Gen gen, size_t n)
  {
    bool any = false;
    size_t i = 0;
    while(i < n && !out_of_time())
    {
      std::vector<streams> c;
      std::vector<size_t> idx;
      size_t j = i;
      while(j < n && c.size() < bufs.size())
      {
        streams s = best;
        if(gen(s, j))
        {
          trim(s);
          c.push_back(std::move(s));
          idx.push_back(j);
        }
        j++;
      }
      if(c.empty())
        return any;
      int k = eval(c);
      if(k >= 0)
      {
        best = c[k];
        any = true;
        i = idx[k] + 1;
      }
      else
        i = j;
    }
    return any;
  }
  void run()
  {
    trim(best);
    // whole streams away, then tails
    for(int s : {F, S, W})
      try_all([&](streams& x, size_t) { if(x.v[s].empty()) return false; x.v[s].clear(); return true; }, 1);
    for(int round = 0; round < 6 && !out_of_time(); round++)
    {
      bool any = false;
      for(int s : {S, F, W})
        for(int den : {2, 4, 8, 16})
          any |= try_all(
              [&](streams& x, size_t) {
                size_t n = x.v[s].size();
                if(n < (size_t)den)
                  return false;
                x.v[s].resize(n - n / den);
                return true;
              },
              3);
      for(int s : {S, F, W})
      {
        for(size_t blk = best.v[s].size() / 2; blk >= 1; blk = blk / 2)
        {
          // zero blocks
          size_t nb = (best.v[s].size() + blk - 1) / blk;
          if(blk <= 2 && nb > 400)
            nb = 400;
          any |= try_all(
              [&](streams& x, size_t j) {
                bool ch = false;
                for(size_t k = j * blk; k < (j + 1) * blk && k < x.v[s].size(); k++)
                  if(x.v[s][k])
                  {
                    x.v[s][k] = 0;
                    ch = true;
                  }
                return ch;
              },
              nb);
          // delete blocks
          any |= try_all(
              [&](streams& x, size_t j) {
                if(j * blk >= x.v[s].size())
                  return false;
                x.v[s].erase(
                    x.v[s].begin() + j * blk,
                    x.v[s].begin() + std::min(x.v[s].size(), (j + 1) * blk));
                return true;
              },
              nb);
          if(blk == 1)
            break;
        }
      }
      // smaller values
      for(int s : {W, F, S})
        any |= try_all(
            [&](streams& x, size_t j) {
              if(j >= x.v[s].size() || x.v[s][j] < 2)
                return false;
              x.v[s][j] = x.v[s][j] > 3 ? x.v[s][j] / 2 : x.v[s][j] - 1;
              return true;
            },
            std::min<size_t>(best.v[s].size(), 300));
      if(!any)
        break;
    }
  }
};

static bool write_replay(const std::string& path, const options& o, const scenario* sc, const result* r, const streams& s)
{
  std::ofstream f(path);
  f << "libossia-sim-replay 1\nproperty " << o.prop << "\nscenario " << sc->name << "\nclass " << r->cls
    << "\nhash " << std::hex << r->hash << std::dec << "\n";
  const char* nm = "WSF";
  for(int i = 0; i < 3; i++)
  {
    f << nm[i] << " " << s.v[i].size();
    for(auto x : s.v[i])
      f << " " << x;
    f << "\n";
  }
  f << "--- " << r->msg << "\n--- trace of the minimised run (time, sequence number, thread):\n" << r->sample;
  return f.good();
}
struct replay_data
{
  std::string prop, scen, cls;
  uint64_t hash;
  streams s;
};
static bool read_replay(const std::string& path, replay_data& d)
{
  std::ifstream f(path);
  std::string l;
  if(!std::getline(f, l) || l.rfind("libossia-sim-replay", 0) != 0)
    return false;
  while(std::getline(f, l))
  {
    if(l.rfind("---", 0) == 0)
      break;
    auto sp = l.find(' ');
    std::string k = l.substr(0, sp), v = sp == std::string::npos ? "" : l.substr(sp + 1);
    if(k == "property")
      d.prop = v;
    else if(k == "scenario")
      d.scen = v;
    else if(k == "class")
      d.cls = v;
    else if(k == "hash")
      d.hash = strtoull(v.c_str(), nullptr, 16);
    else
    {
      int i = k == "W" ? 0 : k == "S" ? 1 : 2;
      std::istringstream ss(v);
      size_t n;
      ss >> n;
      d.s.v[i].resize(n);
      for(auto& x : d.s.v[i])
        ss >> x;
    }
  }
  return true;
}
static int do_replay(options& o)
{
  replay_data d;
  if(!read_replay(o.replay, d))
  {
    fprintf(stderr, "cannot read %s\n", o.replay.c_str());
    return 2;
  }
  o.prop = d.prop;
  const scenario* sc = nullptr;
  for(auto s = g_scen; s; s = s->next)
    if(d.prop == s->property && d.scen == s->name)
      sc = s;
  if(!sc)
  {
    fprintf(stderr, "no scenario %s\n", d.scen.c_str());
    return 2;
  }
  result* r = shared<result>();
  auto in = input_of(d.s, o.verbose);
  one_run(sc, in, r);
  printf("replay: status=%d class=%s hash=%llx expected class=%s hash=%llx\n%s\n", r->status, r->cls,
         (unsigned long long)r->hash, d.cls.c_str(), (unsigned long long)d.hash, r->msg);
  const bool crash = d.cls.rfind("crash-", 0) == 0;
  for(int i = 0; i < 5 && crash && r->status != 2; i++)
    one_run(sc, in, r);
  if(r->status == 2 && d.cls == r->cls && (crash || r->hash == d.hash))
  {
    printf("VIOLATION property=%s replay=%s\n", d.prop.c_str(), o.replay.c_str());
    return 1;
  }
  if(r->status == 1)
    return 0;
  return r->status == 2 ? 1 : 2;
}

struct finding
{
  std::string prop, cls, text;
};
// lines "known: property=<id> class=<class> <text>"; "fixed:" lines suppress nothing
static std::vector<finding> read_findings(const std::string& path)
{
  std::vector<finding> r;
  std::ifstream f(path);
  std::string l;
  while(std::getline(f, l))
  {
    if(l.rfind("known: property=", 0) != 0)
      continue;
    finding x;
    std::istringstream ss(l.substr(7));
    std::string a, b;
    ss >> a >> b;
    x.prop = a.substr(9);
    if(b.rfind("class=", 0) != 0)
      continue;
    x.cls = b.substr(6);
    std::getline(ss, x.text);
    r.push_back(x);
  }
  return r;
}

struct bad_run
{
  long index;
  int status;
  int known;
  char cls[160];
  char msg[400];
};
struct shared_state
{
  long next;
  int stop;
  int nbad;
  bad_run bad[64];
  long first_bad;
};
struct per_worker
{
  long runs, faulty;
  uint64_t steps, switches, sim_ns;
  int ncounters;
  counter counters[400];
  long known[32];
};
static constexpr long MAX_RUNS = 4000000;

int sim_main(int argc, char** argv)
{
  options o;
  for(int i = 1; i < argc; i++)
  {
    std::string a = argv[i];
    auto next = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
    if(a == "--prop") o.prop = next();
    else if(a == "--replay") o.replay = next();
    else if(a == "--seed") o.seed = strtoull(next().c_str(), nullptr, 10);
    else if(a == "--runs") o.runs = atol(next().c_str());
    else if(a == "--cap") o.cap = atof(next().c_str());
    else if(a == "--jobs") o.jobs = atoi(next().c_str());
    else if(a == "--evidence") o.evidence = next();
    else if(a == "--findings") o.findings = next();
    else if(a == "--only") o.only = next();
    else if(a == "--tier") o.tier = next();
    else if(a == "--replay-dir") o.replay_dir = next();
    else if(a == "--assume") o.assumptions = next();
    else if(a == "--verbose" || a == "-v") o.verbose = true;
    else if(a == "--list") o.list = true;
    else if(a == "--keep-going") o.keep_going = true;
    else if(a == "--det") o.det = atol(next().c_str());
    else if(a == "--index") o.index = atol(next().c_str());
    else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
  }
  if(o.list)
  {
    for(auto s = g_scen; s; s = s->next)
      printf("%s %s\n", s->property, s->name);
    return 0;
  }
  if(!o.replay.empty())
    return do_replay(o);
  auto scs = pool(o);
  if(scs.empty())
  {
    fprintf(stderr, "no scenario for %s\n", o.prop.c_str());
    return 2;
  }
  o.runs = std::min(o.runs, MAX_RUNS);
  uint64_t base = hash64(o.seed * 1000003 + 17);
  for(char c : o.prop)
    base = hash64(base ^ c);
  auto seed_of = [&](long i) { return hash64(base + i); };
  auto scen_of = [&](long i) { return scs[hash64(base ^ (i * 7919 + 5)) % scs.size()]; };

  if(o.index >= 0)
  {
    result* r = shared<result>();
    run_input in{};
    in.seed = seed_of(o.index);
    in.verbose = o.verbose;
    one_run(scen_of(o.index), in, r);
    printf("run %ld scenario %s: status=%d class=%s hash=%llx steps=%llu sim=%.3fms\n%s\n", o.index,
           scen_of(o.index)->name, r->status, r->cls, (unsigned long long)r->hash,
           (unsigned long long)r->steps, r->sim_ns / 1e6, r->msg);
    for(int i = 0; i < r->ncounters; i++)
      printf("  %s = %llu\n", r->counters[i].name, (unsigned long long)r->counters[i].n);
    return r->status == 1 ? 0 : r->status == 2 ? 1 : 2;
  }

  auto known = read_findings(o.findings);
  auto* st = shared<shared_state>();
  st->first_bad = MAX_RUNS;
  auto* pw = shared<per_worker>(o.jobs);
  auto* sched = shared<uint64_t>(o.runs + 1);
  auto* bufs = shared<result>(std::max(o.jobs, 8) * 2);
  double t0 = now_s();
  std::vector<pid_t> kids;
  for(int w = 0; w < o.jobs; w++)
  {
    pid_t p = fork();
    if(p)
    {
      kids.push_back(p);
      continue;
    }
    auto& me = pw[w];
    result* r = &bufs[2 * w];
    for(;;)
    {
      if(__atomic_load_n(&st->stop, __ATOMIC_RELAXED))
        break;
      if(now_s() - t0 > o.cap)
        break;
      long i = __atomic_fetch_add(&st->next, 1, __ATOMIC_RELAXED);
      if(i >= o.runs)
        break;
      run_input in{};
      in.seed = seed_of(i);
      const scenario* sc = scen_of(i);
      one_run(sc, in, r);
      if(o.det && i % o.det == 0)
      {
        result* q = &bufs[2 * w + 1];
        one_run(sc, in, q);
        if(q->status != r->status || q->hash != r->hash || q->steps != r->steps)
        {
          q->status = 3;
          char b[300];
          snprintf(b, sizeof b, "not repeatable: %d/%d %llx/%llx steps %llu/%llu %s|%s", r->status, q->status,
                   (unsigned long long)r->hash, (unsigned long long)q->hash, (unsigned long long)r->steps,
                   (unsigned long long)q->steps, r->cls, q->cls);
          snprintf(q->msg, sizeof q->msg, "%s", b);
          strcpy(q->cls, "sim-error");
          r = q;
        }
      }
      me.runs++;
      me.steps += r->steps;
      me.switches += r->switches;
      me.sim_ns += r->sim_ns;
      bool fl = false;
      auto add = [&](const char* nm, uint64_t n) {
        int k = 0;
        for(; k < me.ncounters; k++)
          if(!strcmp(me.counters[k].name, nm))
            break;
        if(k == me.ncounters && k < 400)
        {
          snprintf(me.counters[k].name, sizeof me.counters[k].name, "%s", nm);
          me.ncounters++;
        }
        if(k < 400)
          me.counters[k].n += n;
      };
      for(int k = 0; k < r->ncounters; k++)
      {
        add(r->counters[k].name, r->counters[k].n);
        fl |= r->counters[k].name[0] == 'f';
      }
      me.faulty += fl;
      std::string sn = std::string("s:") + sc->name;
      add(sn.substr(0, 39).c_str(), 1);
      if(r->switches > 1 || fl)
        sched[i] = hash64(r->schedhash);
      if(r->status != 1)
      {
        int kn = -1;
        for(size_t k = 0; k < known.size() && k < 32; k++)
          if(r->status == 2 && known[k].prop == o.prop && known[k].cls == r->cls)
            kn = k;
        if(kn >= 0)
        {
          me.known[kn]++;
        }
        else
        {
          int k = __atomic_fetch_add(&st->nbad, 1, __ATOMIC_RELAXED);
          if(k < 64)
          {
            auto& b = st->bad[k];
            b.status = r->status;
            snprintf(b.cls, sizeof b.cls, "%s", r->cls);
            snprintf(b.msg, sizeof b.msg, "%s", r->msg);
            b.index = i;
          }
          if(!o.keep_going || k > 60)
            __atomic_store_n(&st->stop, 1, __ATOMIC_RELAXED);
        }
      }
      r = &bufs[2 * w];
    }
    raise(SIGKILL);
  }
  for(auto p : kids)
    waitpid(p, nullptr, 0);
  double explore_s = now_s() - t0;

  // totals
  per_worker T{};
  std::map<std::string, uint64_t> cnt;
  std::vector<long> kn(known.size());
  for(int w = 0; w < o.jobs; w++)
  {
    T.runs += pw[w].runs;
    T.faulty += pw[w].faulty;
    T.steps += pw[w].steps;
    T.switches += pw[w].switches;
    T.sim_ns += pw[w].sim_ns;
    for(int k = 0; k < pw[w].ncounters; k++)
      cnt[pw[w].counters[k].name] += pw[w].counters[k].n;
    for(size_t k = 0; k < known.size() && k < 32; k++)
      kn[k] += pw[w].known[k];
  }
  std::set<uint64_t> ds;
  for(long i = 0; i < o.runs; i++)
    if(sched[i])
      ds.insert(sched[i]);

  int rc = 0;
  int nb = std::min(st->nbad, 64);
  std::vector<bad_run> bad(st->bad, st->bad + nb);
  std::sort(bad.begin(), bad.end(), [](auto& a, auto& b) { return a.index < b.index; });
  std::string replay_path;
  long trials = 0;
  if(o.keep_going)
  {
    std::map<std::string, std::pair<long, bad_run>> by;
    for(auto& b : bad)
    {
      auto& e = by[std::string(scen_of(b.index)->name) + " " + b.cls];
      if(!e.first++)
        e.second = b;
    }
    for(auto& [k, e] : by)
      printf("%4ldx %s (first: run %ld) %s\n", e.first, k.c_str(), e.second.index, e.second.msg);
    for(auto& c : cnt)
      printf("  %s = %llu\n", c.first.c_str(), (unsigned long long)c.second);
  }
  else
    for(auto& b : bad)
    {
      if(b.status == 3)
      {
        printf("ERROR property=%s run %ld (%s): %s: %s\n", o.prop.c_str(), b.index, scen_of(b.index)->name,
               b.cls, b.msg);
        rc = 2;
        continue;
      }
      // gate 1: the same seed again, twice, same outcome
      const scenario* sc = scen_of(b.index);
      run_input in{};
      in.seed = seed_of(b.index);
      // What happens after memory was corrupted can depend on anything: then it is the outcome
      // which has to come again, not the whole trace.
      bool corrupt = !strncmp(b.cls, "crash-", 6);
      auto again = [&](result* r) {
        for(int k = 0; k < (corrupt ? 5 : 1); k++)
        {
          one_run(sc, in, r);
          if(r->status == 2 && !strcmp(r->cls, b.cls))
            return true;
        }
        return false;
      };
      if(!again(&bufs[0]) || !again(&bufs[1]) || (!corrupt && bufs[0].hash != bufs[1].hash))
      {
        printf("ERROR property=%s run %ld (%s) %s is not repeatable: %s/%s\n", o.prop.c_str(), b.index,
               sc->name, b.cls, bufs[0].cls, bufs[1].cls);
        rc = 2;
        continue;
      }
      bool hang = !strcmp(b.cls, "hang");
      minimiser m;
      m.sc = sc;
      m.cls = b.cls;
      for(int k = 0; k < 8; k++)
        m.bufs.push_back(&bufs[k + 2]);
      m.best = grab(&bufs[0]);
      m.deadline = now_s() + (o.tier == "quick" ? 25 : 90);
      if(truncated(&bufs[0]))
      {
        printf("ERROR property=%s run %ld: choice stream too long to replay\n", o.prop.c_str(), b.index);
        rc = 2;
        continue;
      }
      size_t before = m.best.v[0].size() + m.best.v[1].size() + m.best.v[2].size();
      if(!hang)
        m.run();
      trials = m.trials;
      size_t after = m.best.v[0].size() + m.best.v[1].size() + m.best.v[2].size();
      in = input_of(m.best);
      if(!again(&bufs[0]))
      {
        printf("ERROR property=%s run %ld (%s): the minimised run does not fail again (%s)\n", o.prop.c_str(),
               b.index, sc->name, bufs[0].cls);
        rc = 2;
        continue;
      }
      mkdir(o.replay_dir.c_str(), 0755);
      char nm[200];
      snprintf(nm, sizeof nm, "%s/%s-%s-%llu-%ld.replay", o.replay_dir.c_str(), o.prop.c_str(), sc->name,
               (unsigned long long)o.seed, b.index);
      replay_path = nm;
      if(!write_replay(replay_path, o, sc, &bufs[0], m.best))
      {
        printf("ERROR cannot write %s\n", nm);
        rc = 2;
        continue;
      }
      // gate 2: a fresh process replays the file to the same violation
      int wst = 0;
      for(int k = 0; k < (corrupt ? 5 : 1); k++)
      {
        pid_t p = fork();
        if(p == 0)
        {
          int fd = ::open("/dev/null", O_WRONLY);
          dup2(fd, 1);
          dup2(fd, 2);
          execl("/proc/self/exe", "simbin", "--replay", nm, nullptr);
          _exit(99);
        }
        waitpid(p, &wst, 0);
        if(WIFEXITED(wst) && WEXITSTATUS(wst) == 1)
          break;
      }
      if(!WIFEXITED(wst) || WEXITSTATUS(wst) != 1)
      {
        printf("ERROR property=%s the replay file %s does not reproduce (%x)\n", o.prop.c_str(), nm, wst);
        rc = 2;
        continue;
      }
      printf("scenario %s, seed %llu, run %ld, class %s\n%s\n", sc->name, (unsigned long long)o.seed, b.index,
             b.cls, bufs[0].msg);
      printf("minimised from %zu to %zu choices in %ld trial runs; trace:\n%s", before, after, m.trials,
             bufs[0].sample);
      printf("VIOLATION property=%s replay=%s\n", o.prop.c_str(), nm);
      rc = 1;
      break;
    }
  for(size_t k = 0; k < known.size(); k++)
    if(known[k].prop == o.prop)
      printf("KNOWN-FINDING: property=%s %s: %s\n", o.prop.c_str(), known[k].cls.c_str(),
             known[k].text.c_str());

  // samples: the first runs written out again
  std::string samples;
  {
    int n = 0;
    std::set<std::string> seen;
    for(long i = 0; i < std::min<long>(o.runs, 40) && n < 3; i++)
    {
      if(!seen.insert(scen_of(i)->name).second && seen.size() < std::min<size_t>(3, scs.size()))
        continue;
      run_input in{};
      in.seed = seed_of(i);
      one_run(scen_of(i), in, &bufs[0]);
      std::string tr = bufs[0].sample;
      if(tr.size() > 1800)
        tr.resize(1800);
      char b[300];
      snprintf(b, sizeof b, "run %ld scenario %s seed %llx: %llu schedule points, %llu switches, %.3f ms simulated. ",
               i, scen_of(i)->name, (unsigned long long)in.seed, (unsigned long long)bufs[0].steps,
               (unsigned long long)bufs[0].switches, bufs[0].sim_ns / 1e6);
      samples += (n ? "," : "") + js(b + tr);
      n++;
    }
  }
  auto obj = [&](const char* pre) {
    std::string r = "{";
    bool first = true;
    for(auto& c : cnt)
      if(c.first.rfind(pre, 0) == 0)
      {
        r += (first ? "" : ",") + js(c.first.substr(2)) + ":" + std::to_string(c.second);
        first = false;
      }
    return r + "}";
  };
  double wall = now_s() - t0;
  if(!o.evidence.empty())
  {
    std::ofstream f(o.evidence);
    long vio = rc == 1 ? 1 : 0;
    f << "{\"property\":" << js(o.prop) << ",\"tier\":" << js(o.tier) << ",\"seed\":" << o.seed
      << ",\"level\":\"exploration\",\"coverage\":{\"evaluations\":" << T.runs
      << ",\"distinct_nontrivial\":" << ds.size()
      << ",\"rule\":\"one evaluation is one simulated execution from one derived seed; it is "
         "non-trivial when threads were switched or a fault fired, and two are distinct when their sequences of "
         "thread switches, fired faults and logged observations differ\""
      << ",\"samples\":[" << samples << "],\"seeds_per_hour\":"
      << (long)(explore_s > 0 ? T.runs / explore_s * 3600 : 0)
      << ",\"simulated_seconds\":" << T.sim_ns / 1e9 << ",\"schedule_points\":" << T.steps
      << ",\"context_switches\":" << T.switches << ",\"runs_with_a_fault\":" << T.faulty
      << ",\"faults_injected\":" << obj("f:") << ",\"probes_reached\":" << obj("p:")
      << ",\"runs_per_scenario\":" << obj("s:") << ",\"minimisation_trials\":" << trials
      << ",\"known_findings_hit\":{";
    bool first = true;
    for(size_t k = 0; k < known.size(); k++)
      if(known[k].prop == o.prop)
      {
        f << (first ? "" : ",") << js(known[k].cls) << ":" << kn[k];
        first = false;
      }
    f << "},\"components\":" << (o.assumptions.empty() ? "{}" : o.assumptions)
      << "},\"assumptions\":[\"memory is sequentially consistent inside one simulated execution; weak-memory "
         "effects show only as data races reported by the happens-before detector\",\"simulated sockets, clocks "
         "and schedulers behave like Linux loopback within the modelled faults\"],\"wall_s\":"
      << wall << ",\"violations\":" << vio << "}\n";
  }
  printf("%s: %ld runs, %zu distinct, %.1f s, %ld with faults, rc=%d\n", o.prop.c_str(), T.runs, ds.size(), wall,
         T.faulty, rc);
  if(o.keep_going)
    return nb ? 1 : 0;
  return rc;
}

int main(int argc, char** argv)
{
  rt_scope keep;
  int p = personality(0xffffffff);
  if(p != -1 && !(p & ADDR_NO_RANDOMIZE))
  {
    personality(p | ADDR_NO_RANDOMIZE);
    setenv("LD_BIND_NOW", "1", 1);
    execv("/proc/self/exe", argv);
  }
  init_symbols();
  setvbuf(stdout, nullptr, _IOLBF, 0);
  int rc = sim_main(argc, argv);
  fflush(stdout);
  _exit(rc);
}
