// Core of the simulator: memory, choices, threads, synchronisation, clocks,
// happens-before race detection. Exactly one simulated thread runs at any time; which
// one is decided here from the recorded choice streams.
#include "rt.hpp"

#include <cxxabi.h>
#include <dlfcn.h>
#include <elf.h>
#include <errno.h>
#include <execinfo.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <math.h>
#include <pthread.h>
#include <semaphore.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <unistd.h>

#include <algorithm>
#include <exception>
#include <map>
#include <new>
#include <set>
#include <typeinfo>

#define likely(x) __builtin_expect(!!(x), 1)
#define unlikely(x) __builtin_expect(!!(x), 0)

static inline long raw_syscall6(long n, long a, long b, long c, long d, long e, long f)
{
  long ret;
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall"
                   : "=a"(ret)
                   : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                   : "rcx", "r11", "memory");
  return ret;
}
static inline long raw_futex(uint32_t* a, int op, uint32_t v)
{
  return raw_syscall6(SYS_futex, (long)a, op, v, 0, 0, 0);
}

namespace sim
{
// =====================================================================================
// memory
struct Slot { uint64_t v; };
// slot: tid:8 | mask:8 | write:1 | atomic:1 | pad | clk:32
struct Cell
{
  uint64_t s[4];
  uint32_t pc[4];
  uint32_t sync;
  uint32_t outside; // bytes of the granule which belong to no object
};
static constexpr uint64_t FREED = 0xFFull << 56;
bool g_active = false;
static __thread int rt_depth = 0;
rt_scope::rt_scope() { ++rt_depth; }
rt_scope::~rt_scope() { --rt_depth; }

struct Hdr
{
  uint64_t size;   // requested
  uint32_t cls;    // size class
  uint32_t magic;
};
static constexpr uint32_t MAGIC = 0x51A110C8, MAGIC_FREE = 0x0DEAD0FF;
static constexpr int NCLS = 80;
static size_t cls_size(int c)
{
  // 32, 48, 64, 80, 96, 112, 128, then 4 steps per power of two
  if(c < 7)
    return 32 + 16 * c;
  int p = (c - 7) / 4, q = (c - 7) % 4;
  return (size_t(128) << p) + (size_t(128) << p) / 4 * (q + 1);
}
static size_t g_cls[NCLS];
struct FreeNode { FreeNode* next; };
struct Arena
{
  uintptr_t cur, end;
  FreeNode* head[NCLS];
  FreeNode* tail[NCLS];
  uint32_t nfree[NCLS];
  bool shadow;
};
static Arena g_app, g_rt;
static bool g_mem_ready = false;
static Cell* const g_shadow = (Cell*)SHADOW_BASE;
static bool g_poison = false;

static void mem_fatal(const char* m)
{
  raw_syscall6(SYS_write, 2, (long)m, strlen(m), 0, 0, 0);
  raw_syscall6(SYS_exit_group, 97, 0, 0, 0, 0, 0);
}
static void mem_init()
{
  if(g_mem_ready)
    return;
  g_mem_ready = true;
  auto map = [](uintptr_t a, size_t n) {
    long r = raw_syscall6(
        SYS_mmap, a, n, PROT_READ | PROT_WRITE,
        MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if(r != (long)a)
      mem_fatal("simulator: cannot map its memory\n");
  };
  map(HEAP_BASE, SHADOWED_END - HEAP_BASE);
  map(RT_BASE, RT_SIZE);
  map(SHADOW_BASE, (GLOBALS_END / 8 + (SHADOWED_END - HEAP_BASE) / 8) * sizeof(Cell));
  for(int i = 0; i < MAXT; i++)
    raw_syscall6(SYS_mprotect, STACK_BASE + i * STACK_SIZE, STACK_GUARD, PROT_NONE, 0, 0, 0);
  for(int i = 0; i < NCLS; i++)
    g_cls[i] = cls_size(i);
  g_app = {HEAP_BASE + 64, HEAP_BASE + HEAP_SIZE, {}, {}, {}, true};
  g_rt = {RT_BASE + 64, RT_BASE + RT_SIZE, {}, {}, {}, false};
}
static int find_cls(size_t n)
{
  for(int i = 0; i < NCLS; i++)
    if(g_cls[i] >= n)
      return i;
  return -1;
}
static inline Cell* cell_of(uintptr_t a)
{
  if(a < GLOBALS_END)
    return g_shadow + a / 8;
  if(a >= HEAP_BASE && a < SHADOWED_END)
    return g_shadow + GLOBALS_END / 8 + (a - HEAP_BASE) / 8;
  return nullptr;
}
static void drop_sync(Cell* c);
static void* arena_alloc(Arena& A, size_t n, size_t align)
{
  size_t need = n + sizeof(Hdr);
  bool big_align = align > 16;
  if(big_align)
    need += align;
  int c = find_cls(need);
  if(c < 0)
    return nullptr;
  size_t sz = g_cls[c];
  uintptr_t blk = 0;
  bool fresh = false;
  // keep a quarantine: do not reuse a block at once
  uint32_t keep = A.shadow ? (sz <= 4096 ? 32 : 2) : 0;
  if(!big_align && A.head[c] && A.nfree[c] > keep)
  {
    FreeNode* f = A.head[c];
    A.head[c] = f->next;
    if(!A.head[c])
      A.tail[c] = nullptr;
    A.nfree[c]--;
    blk = (uintptr_t)f - sizeof(Hdr);
  }
  else
  {
    if(A.cur + sz > A.end)
      return nullptr;
    blk = A.cur;
    A.cur += sz;
    fresh = true;
  }
  uintptr_t user = blk + sizeof(Hdr);
  if(big_align)
    user = (user + align - 1) & ~(uintptr_t)(align - 1);
  Hdr* h = (Hdr*)(user - sizeof(Hdr));
  h->size = n;
  h->cls = big_align ? (uint32_t)(1000 + c) : (uint32_t)c;
  h->magic = MAGIC;
  if(A.shadow && !fresh)
  {
    Cell* b = cell_of(user);
    Cell* e = cell_of(user + n + 7 < A.end ? user + n + 7 : A.end - 1);
    memset((void*)b, 0, (char*)e - (char*)b);
  }
  if(A.shadow)
  {
    // the header before the object and what remains of the block behind it
    Cell* c0 = cell_of(blk);
    c0[0].outside = 0xFF;
    c0[1].outside = 0xFF;
    uintptr_t e = user + n, last = blk + sz;
    if(last > e + 64)
      last = e + 64;
    if(e & 7)
    {
      cell_of(e)->outside = 0xFF << (e & 7) & 0xFF;
      e = (e + 7) & ~(uintptr_t)7;
    }
    for(; e + 8 <= last; e += 8)
      cell_of(e)->outside = 0xFF;
  }
  return (void*)user;
}
static void on_double_free(void*);
static void tsan_free_range(uintptr_t a, size_t n);
static void arena_free(Arena& A, void* p)
{
  Hdr* h = (Hdr*)((uintptr_t)p - sizeof(Hdr));
  if(h->magic != MAGIC)
  {
    on_double_free(p);
    return;
  }
  h->magic = MAGIC_FREE;
  if(A.shadow)
    tsan_free_range((uintptr_t)p, h->size);
  if(h->cls >= 1000)
    return; // over-aligned blocks are not recycled
  int c = h->cls;
  if(A.shadow && g_poison && h->size > 8)
  {
    char* q = (char*)p + 8;
    size_t k = (h->size < 4096 ? h->size : 4096) - 8;
    __asm__ volatile("rep stosb" : "+D"(q), "+c"(k) : "a"(0xDD) : "memory");
  }
  FreeNode* f = (FreeNode*)p;
  f->next = nullptr;
  if(A.tail[c])
    A.tail[c]->next = f;
  else
    A.head[c] = f;
  A.tail[c] = f;
  A.nfree[c]++;
}
static constexpr size_t BIG_ALLOC = 256u << 20;
static void alloc_refused();
static void* do_alloc(size_t n, size_t align)
{
  if(unlikely(!g_mem_ready))
    mem_init();
  if(unlikely(n > BIG_ALLOC))
  {
    // more than the machine has to give
    alloc_refused();
    errno = ENOMEM;
    return nullptr;
  }
  void* p = arena_alloc(rt_depth ? g_rt : g_app, n ? n : 1, align);
  if(!p)
    errno = ENOMEM;
  return p;
}
static size_t usable(void* p) { return ((Hdr*)((uintptr_t)p - sizeof(Hdr)))->size; }
}

extern "C" {
void* malloc(size_t n) { return sim::do_alloc(n, 16); }
void free(void* p)
{
  if(!p)
    return;
  uintptr_t a = (uintptr_t)p;
  if(a >= sim::RT_BASE && a < sim::RT_BASE + sim::RT_SIZE)
    sim::arena_free(sim::g_rt, p);
  else
    sim::arena_free(sim::g_app, p);
}
void* calloc(size_t a, size_t b)
{
  size_t n;
  if(__builtin_mul_overflow(a, b, &n))
    return nullptr;
  void* p = sim::do_alloc(n, 16);
  if(p)
  {
    volatile char* q = (volatile char*)p;
    (void)q;
    __builtin_memset(p, 0, n);
  }
  return p;
}
void* realloc(void* p, size_t n)
{
  if(!p)
    return malloc(n);
  if(!n)
  {
    free(p);
    return nullptr;
  }
  size_t old = sim::usable(p);
  void* q = malloc(n);
  if(!q)
    return nullptr;
  __builtin_memcpy(q, p, old < n ? old : n);
  free(p);
  return q;
}
int posix_memalign(void** out, size_t al, size_t n)
{
  void* p = sim::do_alloc(n, al);
  if(!p)
    return ENOMEM;
  *out = p;
  return 0;
}
void* aligned_alloc(size_t al, size_t n) { return sim::do_alloc(n, al); }
void* memalign(size_t al, size_t n) { return sim::do_alloc(n, al); }
void* valloc(size_t n) { return sim::do_alloc(n, 4096); }
size_t malloc_usable_size(void* p) { return p ? sim::usable(p) : 0; }
}

namespace sim
{
// =====================================================================================
// state of the run
struct VC
{
  uint32_t c[MAXT];
  void join(const VC& o)
  {
    for(int i = 0; i < MAXT; i++)
      if(o.c[i] > c[i])
        c[i] = o.c[i];
  }
};
enum { T_FREE, T_RUN, T_BLOCKED, T_DONE };
struct Thread
{
  int id;
  int state;
  uint32_t baton;
  const void* obj;
  const char* what;
  uint64_t deadline;
  bool timed_out;
  uint64_t runnable_since;
  VC vc, acq, relf;
  bool has_acq, has_relf;
  void* (*fn)(void*);
  void* arg;
  void* ret;
  pthread_t real;
  bool joined, detached;
  int no_preempt;
  char name[20];
  int sp;
  uint32_t stack[64];
  uint64_t clk_step;
  unsigned clk_run;
};
struct Event
{
  uint64_t at, id;
  std::function<void()>* f;
};
struct SyncVar
{
  VC vc, rvc;
  int owner, count, readers;
  bool used;
};
static Thread g_t[MAXT];
static int g_nt = 0;
static int g_live = 0;
static Thread* g_cur = nullptr;
static __thread Thread* self = nullptr;
static uint64_t g_now, g_seq, g_steps, g_limit, g_switches, g_accesses, g_access_limit;
static uint64_t g_hash, g_schedhash;
static result* g_res;
static const run_input* g_in;
static uint64_t g_rng[3][2];
static uint32_t g_pos[3];
static bool g_race_on;
static bool g_on; // instrumentation does something
static uint64_t g_gap_sync, g_gap_mem;
static unsigned g_mean_sync, g_mean_mem;
static unsigned g_stall_permille;
static uint64_t g_spin;
static bool g_faults_off;
static bool g_verbose;
static uint32_t g_fault_mask_seed;
static bool g_faults_any;
static SyncVar* g_sync;
static uint32_t g_nsync;
static constexpr uint32_t MAX_SYNC = 200000;
template <typename T>
struct rt_alloc
{
  using value_type = T;
  rt_alloc() = default;
  template <typename U> rt_alloc(const rt_alloc<U>&) { }
  T* allocate(size_t n)
  {
    rt_scope s;
    return (T*)malloc(n * sizeof(T));
  }
  void deallocate(T* p, size_t) { free(p); }
  template <typename U> bool operator==(const rt_alloc<U>&) const { return true; }
};
struct EvKey
{
  uint64_t at, id;
  bool operator<(const EvKey& o) const { return at != o.at ? at < o.at : id < o.id; }
};
static std::map<EvKey, std::function<void()>*, std::less<EvKey>, rt_alloc<std::pair<const EvKey, std::function<void()>*>>>* g_events;
static uint64_t g_evid;
static std::map<uintptr_t, uint32_t, std::less<uintptr_t>, rt_alloc<std::pair<const uintptr_t, uint32_t>>>* g_othersync;

bool in_sim() { return g_active && self != nullptr; }

void mix(uint64_t v)
{
  g_hash = (g_hash ^ v) * 0x100000001b3ull;
  g_hash ^= g_hash >> 29;
}
static void mix_sched(uint64_t v)
{
  g_schedhash = (g_schedhash ^ v) * 0x100000001b3ull;
  g_schedhash ^= g_schedhash >> 31;
  mix(v);
}
static uint64_t next_rng(int s)
{
  uint64_t s1 = g_rng[s][0];
  const uint64_t s0 = g_rng[s][1];
  g_rng[s][0] = s0;
  s1 ^= s1 << 23;
  g_rng[s][1] = s1 ^ s0 ^ (s1 >> 18) ^ (s0 >> 5);
  return g_rng[s][1] + s0;
}
static uint32_t draw(int s, uint32_t n)
{
  if(n <= 1)
    return 0;
  uint32_t v;
  if(g_in->replay)
    v = g_pos[s] < g_in->len[s] ? g_in->stream[s][g_pos[s]] % n : 0;
  else
    v = (uint32_t)((next_rng(s) >> 11) % n);
  if(g_pos[s] < STREAM_CAP)
  {
    g_res->stream[s][g_pos[s]] = v;
    g_res->len[s] = g_pos[s] + 1;
  }
  g_pos[s]++;
  mix((uint64_t(s) << 40) ^ v);
  return v;
}
bool stalls() { return g_stall_permille != 0; }
uint32_t choose(uint32_t n) { return draw(W, n); }
uint32_t fchoose(uint32_t n) { return draw(F, n); }

void count(const char* prefix, const char* name, uint64_t n)
{
  char b[40];
  snprintf(b, sizeof b, "%s%s", prefix, name);
  for(int i = 0; i < g_res->ncounters; i++)
    if(!strcmp(g_res->counters[i].name, b))
    {
      g_res->counters[i].n += n;
      return;
    }
  if(g_res->ncounters < MAX_COUNTERS)
  {
    strcpy(g_res->counters[g_res->ncounters].name, b);
    g_res->counters[g_res->ncounters].n = n;
    g_res->ncounters++;
  }
}
void probe(const char* name)
{
  rt_scope s;
  count("p:", name);
}
void fault_fired(const char* kind)
{
  rt_scope s;
  count("f:", kind);
  uint32_t h = 0;
  for(const char* p = kind; *p; p++)
    h = h * 31 + (unsigned char)*p;
  mix_sched(0xFA0000000ull + h);
}
bool fault_enabled(const char* kind)
{
  if(g_faults_off || !g_faults_any)
    return false;
  uint32_t h = 2166136261u ^ g_fault_mask_seed;
  for(const char* p = kind; *p; p++)
    h = (h ^ (unsigned char)*p) * 16777619u;
  h ^= h >> 15;
  h *= 0x2c1b3c6du;
  h ^= h >> 12;
  return (h & 0xFF) < 150;
}
bool fault(const char* kind, unsigned permille)
{
  if(!fault_enabled(kind))
    return false;
  if(fchoose(1000) >= 1000 - permille)
  {
    fault_fired(kind);
    return true;
  }
  return false;
}
void faults_off() { g_faults_off = true; }
bool faults_any() { return g_faults_any && !g_faults_off; }

uint64_t seq() { return ++g_seq; }
uint64_t rt_now() { return g_now; }
uint64_t now_ns() { return g_now; }
int thread_id() { return self ? self->id : 0; }
int live_threads() { return g_live; }
void races(bool on) { g_race_on = on; }
void no_preempt(bool on)
{
  if(self)
    self->no_preempt += on ? 1 : -1;
}
void step_limit(uint64_t p) { g_limit = p; }

static void finish(int status)
{
  g_res->hash = g_hash;
  g_res->schedhash = g_schedhash;
  g_res->steps = g_steps;
  g_res->switches = g_switches;
  g_res->sim_ns = g_now;
  __atomic_store_n(&g_res->status, status, __ATOMIC_SEQ_CST);
  raw_syscall6(SYS_exit_group, status == 1 ? 0 : 1, 0, 0, 0, 0, 0);
  __builtin_unreachable();
}
static void vlog(const char* fmt, va_list ap)
{
  rt_scope s;
  char b[1000];
  int n = vsnprintf(b, sizeof b, fmt, ap);
  if(n < 0)
    return;
  if(n >= (int)sizeof b)
    n = sizeof b - 1;
  for(int i = 0; i < n; i++)
    mix_sched((unsigned char)b[i]);
  char c[1100];
  int m = snprintf(
      c, sizeof c, "[%9.3fms #%llu T%d] %s\n", g_now / 1e6, (unsigned long long)++g_seq,
      self ? self->id : 0, b);
  if(m >= (int)sizeof c)
    m = sizeof c - 1;
  if(g_verbose)
    raw_syscall6(SYS_write, 2, (long)c, m, 0, 0, 0);
  if(g_res->samplelen + m < sizeof(g_res->sample))
  {
    memcpy(g_res->sample + g_res->samplelen, c, m + 1);
    g_res->samplelen += m;
  }
}
void log(const char* fmt, ...)
{
  va_list ap;
  va_start(ap, fmt);
  vlog(fmt, ap);
  va_end(ap);
}
void fail(const char* cls, const char* fmt, ...)
{
  ++rt_depth;
  g_on = false;
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(g_res->msg, sizeof g_res->msg, fmt, ap);
  va_end(ap);
  snprintf(g_res->cls, sizeof g_res->cls, "%s", cls);
  log("VIOLATION %s: %s", g_res->cls, g_res->msg);
  if(g_verbose)
  {
    void* bt[40];
    int n = backtrace(bt, 40);
    backtrace_symbols_fd(bt, n, 2);
  }
  finish(2);
  __builtin_unreachable();
}
void crash_exit(const char* cls, const char* msg)
{
  ++rt_depth;
  snprintf(g_res->cls, sizeof g_res->cls, "%s", cls);
  snprintf(g_res->msg, sizeof g_res->msg, "%s", msg);
  log("VIOLATION %s: %s", g_res->cls, g_res->msg);
  finish(2);
}
static void on_double_free(void* p)
{
  if(!g_active)
    mem_fatal("simulator: bad free\n");
  fail("bad-free", "free of a block that is not allocated (double free or corrupted header) %p", p);
}

// =====================================================================================
// scheduler
uint64_t schedule_event(uint64_t at, std::function<void()> f)
{
  rt_scope s;
  EvKey k{at < g_now ? g_now : at, ++g_evid};
  (*g_events)[k] = new std::function<void()>(std::move(f));
  return k.id;
}
uint64_t pending_events() { return g_events->size(); }
void after(uint64_t ns, std::function<void()> f) { schedule_event(g_now + ns, std::move(f)); }

static void make_runnable(Thread* t)
{
  t->state = T_RUN;
  t->obj = nullptr;
  t->runnable_since = ++g_seq;
}
static void fire_due()
{
  while(!g_events->empty() && g_events->begin()->first.at <= g_now)
  {
    auto f = g_events->begin()->second;
    g_events->erase(g_events->begin());
    {
      rt_scope s;
      (*f)();
      delete f;
    }
  }
  for(int i = 1; i < g_nt; i++)
  {
    Thread* t = &g_t[i];
    if(t->state == T_BLOCKED && t->deadline <= g_now)
    {
      t->timed_out = true;
      make_runnable(t);
    }
  }
}
static void describe_deadlock(char* b, size_t n)
{
  size_t k = 0;
  for(int i = 1; i < g_nt && k < n; i++)
    if(g_t[i].state == T_BLOCKED)
      k += snprintf(b + k, n - k, "T%d(%s) blocked in %s; ", i, g_t[i].name, g_t[i].what);
}
static void draw_gaps()
{
  auto g = [](unsigned mean) -> uint64_t {
    if(!mean)
      return NEVER;
    uint32_t v = draw(S, 2 * mean);
    return v == 0 ? NEVER : v;
  };
  g_gap_sync = g(g_mean_sync);
  g_gap_mem = g(g_mean_mem);
}
static Thread* pick_next(bool prefer_cur)
{
  rt_scope scope; // memmove and the like are intercepted
  for(;;)
  {
    fire_due();
    Thread* r[MAXT];
    int n = 0;
    for(int i = 1; i < g_nt; i++)
      if(g_t[i].state == T_RUN)
        r[n++] = &g_t[i];
    if(n == 0)
    {
      uint64_t nx = g_events->empty() ? NEVER : g_events->begin()->first.at;
      for(int i = 1; i < g_nt; i++)
        if(g_t[i].state == T_BLOCKED && g_t[i].deadline < nx)
          nx = g_t[i].deadline;
      if(nx == NEVER)
      {
        char b[1500];
        describe_deadlock(b, sizeof b);
        fail("deadlock", "no thread can run and nothing is pending: %s", b);
      }
      if(nx > g_now)
        g_now = nx;
      if(++g_steps > g_limit && (g_limit = UINT64_MAX))
        fail("no-progress", "step limit reached (idle loop)");
      continue;
    }
    std::sort(r, r + n, [](Thread* a, Thread* b) { return a->runnable_since < b->runnable_since; });
    if(prefer_cur && g_cur && g_cur->state == T_RUN)
    {
      // rotate the current one in front
      for(int i = 0; i < n; i++)
        if(r[i] == g_cur)
        {
          for(int j = i; j > 0; j--)
            r[j] = r[j - 1];
          r[0] = g_cur;
          break;
        }
    }
    return r[draw(S, n)];
  }
}
static void baton_wait(Thread* t)
{
  while(__atomic_load_n(&t->baton, __ATOMIC_ACQUIRE) == 0)
    raw_futex(&t->baton, FUTEX_WAIT | FUTEX_PRIVATE_FLAG, 0);
  __atomic_store_n(&t->baton, 0, __ATOMIC_RELAXED);
}
static void switch_to(Thread* n)
{
  Thread* me = self;
  g_spin = 0;
  if(n == me)
  {
    g_cur = n;
    return;
  }
  g_switches++;
  mix_sched(0x5700 + n->id);
  g_cur = n;
  int e = errno;
  __atomic_store_n(&n->baton, 1, __ATOMIC_RELEASE);
  raw_futex(&n->baton, FUTEX_WAKE | FUTEX_PRIVATE_FLAG, 1);
  if(me->state != T_DONE)
    baton_wait(me);
  else
    for(;;)
      raw_futex(&me->baton, FUTEX_WAIT | FUTEX_PRIVATE_FLAG, 0);
  errno = e;
}
static void others_run(bool prefer_cur)
{
  draw_gaps();
  Thread* n = pick_next(prefer_cur);
  switch_to(n);
}
static void step(unsigned cost_ns)
{
  g_now += cost_ns;
  if(unlikely(++g_steps > g_limit))
  {
    g_limit = UINT64_MAX;
    char b[1500] = "";
    describe_deadlock(b, sizeof b);
    fail("no-progress", "step limit reached; %s", b);
  }
}
static bool g_calm; // no more stalls: those who wait for the others get their chance
static void preempt()
{
  // the preempted thread may also be stalled for a while
  static const uint64_t stalls[] = {1000, 10000, 100000, 1000000, 20000000};
  if(g_stall_permille && !g_calm && fchoose(1000) >= 1000 - g_stall_permille)
  {
    fault_fired("thread_stall");
    self->what = "stall";
    self->state = T_BLOCKED;
    self->obj = nullptr;
    self->deadline = g_now + stalls[fchoose(5)];
    others_run(false);
    return;
  }
  // somebody else, if there is one
  draw_gaps();
  Thread* r[MAXT];
  int n = 0;
  fire_due();
  for(int i = 1; i < g_nt; i++)
    if(g_t[i].state == T_RUN && &g_t[i] != self)
      r[n++] = &g_t[i];
  if(!n)
    return;
  Thread* nx = r[draw(S, n)];
  self->runnable_since = ++g_seq;
  switch_to(nx);
}
void point_sync()
{
  if(!in_sim())
    return;
  step(20);
  if(self->no_preempt)
    return;
  if(!g_events->empty() && g_events->begin()->first.at <= g_now)
    fire_due();
  if(unlikely(++g_spin > 3000))
  {
    // a thread that never blocks must not starve the others
    g_spin = 0;
    self->runnable_since = ++g_seq;
    Thread* best = nullptr;
    fire_due();
    for(int i = 1; i < g_nt; i++)
      if(g_t[i].state == T_RUN && &g_t[i] != self && (!best || g_t[i].runnable_since < best->runnable_since))
        best = &g_t[i];
    if(best)
      switch_to(best);
    return;
  }
  if(g_gap_sync != NEVER && g_gap_sync-- == 0)
    preempt();
}
void yield()
{
  if(!in_sim())
    return;
  step(50);
  self->runnable_since = ++g_seq;
  others_run(false);
}
bool block_on(const void* obj, const char* what, uint64_t deadline)
{
  Thread* t = self;
  if(deadline <= g_now)
  {
    // still a point where others run
    t->runnable_since = ++g_seq;
    others_run(false);
    return false;
  }
  t->state = T_BLOCKED;
  t->obj = obj;
  t->what = what;
  t->deadline = deadline;
  t->timed_out = false;
  others_run(false);
  return !t->timed_out;
}
void wake_all(const void* obj)
{
  for(int i = 1; i < g_nt; i++)
    if(g_t[i].state == T_BLOCKED && g_t[i].obj == obj)
      make_runnable(&g_t[i]);
}
bool wake_one(const void* obj)
{
  Thread* r[MAXT];
  int n = 0;
  for(int i = 1; i < g_nt; i++)
    if(g_t[i].state == T_BLOCKED && g_t[i].obj == obj)
      r[n++] = &g_t[i];
  if(!n)
    return false;
  make_runnable(r[draw(S, n)]);
  return true;
}
int waiters(const void* obj)
{
  int n = 0;
  for(int i = 1; i < g_nt; i++)
    if(g_t[i].state == T_BLOCKED && g_t[i].obj == obj)
      n++;
  return n;
}
void sleep_ns(uint64_t ns)
{
  if(!in_sim())
    return;
  step(20);
  static char sleeper;
  uint64_t end = g_now + (ns ? ns : 1);
  block_on(self, "sleep", end);
}
void cooperate(unsigned ms, unsigned mm)
{
  g_mean_sync = ms;
  g_mean_mem = mm;
  draw_gaps();
}
static void join_all();
void log_threads()
{
  std::string v;
  {
    rt_scope s;
    for(int i = 1; i < g_nt; i++)
      if(g_t[i].state == T_RUN || g_t[i].state == T_BLOCKED)
      {
        char b[100];
        snprintf(b, sizeof b, "T%d(%s) %s %s; ", i, g_t[i].name, g_t[i].state == T_RUN ? "can run" : "blocked in", g_t[i].state == T_RUN ? "" : g_t[i].what);
        v += b;
      }
  }
  log("%s", v.c_str());
}
bool settle(uint64_t max_ns)
{
  struct j { ~j() { g_calm = false; join_all(); } } at_exit;
  const uint64_t end = g_now + max_ns, calm = g_now + max_ns / 2;
  while(g_now < end)
  {
    // stalls upon stalls could last for ever
    g_calm = g_now >= calm;
    // let everybody who can run do so
    bool other = false;
    for(int i = 1; i < g_nt; i++)
      if(&g_t[i] != self && (g_t[i].state == T_RUN || (g_t[i].state == T_BLOCKED && !strcmp(g_t[i].what, "stall"))))
        other = true;
    if(!other && net_in_flight() == 0)
      return true;
    sleep_ns(100000);
  }
  return false;
}

// =====================================================================================
// happens-before
static SyncVar* sync_at(uint32_t i) { return &g_sync[i]; }
static uint32_t new_sync()
{
  if(g_nsync + 1 >= MAX_SYNC)
    fail("sim-error", "too many synchronisation objects");
  uint32_t i = ++g_nsync;
  return i;
}
static SyncVar* sync_of(const void* p, bool create = true)
{
  uintptr_t a = (uintptr_t)p;
  Cell* c = cell_of(a);
  if(c)
  {
    if(!c->sync)
    {
      if(!create)
        return nullptr;
      c->sync = new_sync();
    }
    return sync_at(c->sync);
  }
  auto it = g_othersync->find(a);
  if(it == g_othersync->end())
  {
    if(!create)
      return nullptr;
    it = g_othersync->insert({a, new_sync()}).first;
  }
  return sync_at(it->second);
}
// the caller has seen the system come to rest: its later accesses come after everything
// that happened before
static void join_all()
{
  if(!self)
    return;
  for(int i = 1; i < g_nt; i++)
    if(&g_t[i] != self)
    {
      self->vc.join(g_t[i].vc);
      g_t[i].vc.c[i]++;
    }
}
void sync_all()
{
  if(!self)
    return;
  join_all();
  for(int i = 1; i < g_nt; i++)
    if(&g_t[i] != self)
      g_t[i].vc.join(self->vc);
  self->vc.c[self->id]++;
}
oracle::oracle() { ++rt_depth; no_preempt(true); }
oracle::~oracle() { --rt_depth; no_preempt(false); }
}
extern "C" void sim_assert_begin()
{
  if(sim::self)
  {
    ++sim::rt_depth;
    sim::no_preempt(true);
  }
}
extern "C" void sim_assert_end()
{
  if(sim::self)
  {
    --sim::rt_depth;
    sim::no_preempt(false);
  }
}
namespace sim
{
static void vc_acquire(SyncVar* s) { self->vc.join(s->vc); }
static void vc_release(SyncVar* s)
{
  s->vc.join(self->vc);
  self->vc.c[self->id]++;
}
void hb_release(const void* a)
{
  if(in_sim())
    vc_release(sync_of(a));
}
void hb_acquire(const void* a)
{
  if(in_sim())
    if(auto s = sync_of(a, false))
      vc_acquire(s);
}
// symbols of the executable, from its own symbol table
struct symb
{
  uint32_t at;
  const char* name;
};
static symb* g_syms;
static size_t g_nsyms;
void init_symbols()
{
  int fd = REAL(open)("/proc/self/exe", O_RDONLY);
  if(fd < 0)
    return;
  off_t len = lseek(fd, 0, SEEK_END);
  char* b = (char*)mmap(nullptr, len, PROT_READ, MAP_PRIVATE, fd, 0);
  REAL(close)(fd);
  if(b == MAP_FAILED)
    return;
  auto eh = (Elf64_Ehdr*)b;
  auto sh = (Elf64_Shdr*)(b + eh->e_shoff);
  for(int i = 0; i < eh->e_shnum; i++)
    if(sh[i].sh_type == SHT_SYMTAB)
    {
      auto st = (Elf64_Sym*)(b + sh[i].sh_offset);
      size_t n = sh[i].sh_size / sizeof(Elf64_Sym);
      const char* str = b + sh[sh[i].sh_link].sh_offset;
      g_syms = (symb*)malloc((n + 1) * sizeof(symb));
      for(size_t k = 0; k < n; k++)
        if(ELF64_ST_TYPE(st[k].st_info) == STT_FUNC && st[k].st_value && st[k].st_value < GLOBALS_END)
          g_syms[g_nsyms++] = {(uint32_t)st[k].st_value, str + st[k].st_name};
      std::sort(g_syms, g_syms + g_nsyms, [](const symb& x, const symb& y) { return x.at < y.at; });
    }
}
static const char* symbolize(uint32_t pc, char* buf, size_t n)
{
  if(g_nsyms && pc < GLOBALS_END)
  {
    auto it = std::upper_bound(
        g_syms, g_syms + g_nsyms, pc, [](uint32_t p, const symb& x) { return p < x.at; });
    if(it != g_syms)
    {
      --it;
      int st = 0;
      char* d = abi::__cxa_demangle(it->name, nullptr, nullptr, &st);
      snprintf(buf, n, "%s", d ? d : it->name);
      return buf;
    }
  }
  Dl_info i{};
  if(dladdr((void*)(uintptr_t)pc, &i) && i.dli_sname)
  {
    int st = 0;
    char* d = abi::__cxa_demangle(i.dli_sname, nullptr, nullptr, &st);
    snprintf(buf, n, "%s", d ? d : i.dli_sname);
  }
  else
    snprintf(buf, n, "0x%x", pc);
  return buf;
}
static void short_name(const char* full, char* out, size_t n)
{
  // keep the qualified function name: drop arguments, template arguments, return type
  char tmp[3000];
  size_t k = 0;
  int depth = 0;
  for(const char* p = full; *p && k + 1 < sizeof tmp; p++)
  {
    if(*p == '<' && depth >= 0 && !(p > full && p[-1] == 'r' && p >= full + 8 && !strncmp(p - 8, "operator", 8)))
    {
      depth++;
      continue;
    }
    if(*p == '>' && depth > 0)
    {
      depth--;
      continue;
    }
    if(depth == 0)
    {
      if(*p == '(' && strncmp(p, "(anonymous", 10) && !(p >= full + 8 && !strncmp(p - 8, "operator", 8)))
        break;
      tmp[k++] = *p;
    }
  }
  tmp[k] = 0;
  const char* sp = strrchr(tmp, ' ');
  snprintf(out, n, "%s", sp ? sp + 1 : tmp);
}
static void stack_text(char* b, size_t n)
{
  size_t k = 0;
  Thread* t = self;
  int top = t->sp < 64 ? t->sp : 64;
  for(int i = top - 1; i >= 0 && i > top - 10 && k + 2 < n; i--)
  {
    char s[2000], q[200];
    symbolize(t->stack[i] - 1, s, sizeof s);
    short_name(s, q, sizeof q);
    k += snprintf(b + k, n - k, " < %s", q);
    if(k >= n)
      break;
  }
}
static void report_race(uintptr_t a, uint64_t old, uint32_t oldpc, uint32_t pc, bool write)
{
  ++rt_depth;
  g_on = false;
  char s1[2000], s2[2000], q1[200], q2[200];
  symbolize(oldpc, s1, sizeof s1);
  symbolize(pc, s2, sizeof s2);
  short_name(s1, q1, sizeof q1);
  short_name(s2, q2, sizeof q2);
  char st[600] = "";
  stack_text(st, sizeof st);
  char cls[160];
  if((old >> 56) == 0xFF)
  {
    snprintf(cls, sizeof cls, "use-after-free");
    fail(cls, "%s of freed memory at 0x%lx in %s%s", write ? "write" : "read", a, q2, st);
  }
  // a stable class: the two places, in alphabetical order
  const char *x = q1, *y = q2;
  if(strcmp(x, y) > 0)
    std::swap(x, y);
  // the state of a connection, which websocketpp itself writes without its lock when it closes
  if(strstr(x, "websocketpp::connection::") && strstr(y, "websocketpp::connection::"))
  {
    g_on = true;
    --rt_depth;
    return;
  }
  snprintf(cls, sizeof cls, "data-race");
  fail(
      cls, "unsynchronised accesses to 0x%lx: %s by T%d in %s (pc 0x%x); %s by T%d in %s (pc 0x%x)%s", a,
      (old >> 47) & 1 ? "write" : "read", (int)(old >> 56), q1, oldpc, write ? "write" : "read",
      self->id, q2, pc, st);
}
static void report_outside(uintptr_t a, bool write)
{
  ++rt_depth;
  g_on = false;
  char st[600] = "";
  stack_text(st, sizeof st);
  fail("heap-overflow", "%s outside of any object at 0x%lx%s", write ? "write" : "read", a, st);
}
static inline uint64_t mk(int tid, uint32_t mask, bool w, bool at, uint32_t clk)
{
  return (uint64_t(tid) << 56) | (uint64_t(mask) << 48) | (uint64_t(w) << 47) | (uint64_t(at) << 46) | clk;
}
static inline void access_granule(Cell* c, uintptr_t a, uint32_t mask, bool w, bool at, uint32_t pc)
{
  Thread* t = self;
  if(unlikely(c->outside & mask))
    report_outside(a, w);
  uint64_t mine = mk(t->id, mask, w, at, t->vc.c[t->id]);
  int put = -1, empty = -1, dead = -1;
  for(int i = 0; i < 4; i++)
  {
    uint64_t v = c->s[i];
    if(v == 0)
    {
      if(empty < 0)
        empty = i;
      continue;
    }
    if(v == mine)
      return;
    if(unlikely((v & FREED) == FREED))
    {
      report_race(a, v, c->pc[i], pc, w);
      return;
    }
    int tid = v >> 56;
    uint32_t m = (v >> 48) & 0xFF;
    bool vw = (v >> 47) & 1, va = (v >> 46) & 1;
    uint32_t clk = (uint32_t)v;
    if(tid == t->id)
    {
      if(vw == w && va == at && (m & ~mask) == 0)
        put = i;
      continue;
    }
    bool hb = clk <= t->vc.c[tid];
    if(!hb && (m & mask) && (w || vw) && !(at && va))
    {
      report_race(a, v, c->pc[i], pc, w);
      return;
    }
    if(hb && (w || !vw) && (m & ~mask) == 0)
      dead = i; // subsumed by this access
  }
  int i = put >= 0 ? put : dead >= 0 ? dead : empty >= 0 ? empty : (int)(a >> 3 ^ mine) & 3;
  c->s[i] = mine;
  c->pc[i] = pc;
}
static inline void do_access(uintptr_t a, size_t n, bool w, bool at, uint32_t pc)
{
  if(!g_race_on)
    return;
  while(n)
  {
    Cell* c = cell_of(a);
    if(!c)
      return;
    size_t off = a & 7, k = 8 - off;
    if(k > n)
      k = n;
    uint32_t mask = ((1u << k) - 1) << off;
    access_granule(c, a, mask, w, at, pc);
    a += k;
    n -= k;
  }
}
static void tsan_free_range(uintptr_t a, size_t n)
{
  if(!g_active || !self)
    return;
  uint32_t pc = (uint32_t)(uintptr_t)__builtin_return_address(0);
  if(n > 4096)
    n = 4096;
  uintptr_t e = a + n;
  for(; a < e; a += 8)
  {
    Cell* c = cell_of(a);
    if(!c)
      return;
    if(g_on && g_race_on && rt_depth == 0)
      access_granule(c, a, 0xFF & ~c->outside, true, false, pc);
    c->sync = 0;
    c->s[0] = FREED;
    c->pc[0] = pc;
    c->s[1] = c->s[2] = c->s[3] = 0;
  }
}
static void alloc_refused()
{
  if(g_active && self && !rt_depth)
  {
    rt_scope s;
    count("f:", "allocation_refused");
  }
}
static void over_accesses()
{
  ++rt_depth;
  g_on = false;
  char st[600] = "";
  stack_text(st, sizeof st);
  fail("no-progress", "access limit reached%s", st);
}
static inline void mem_point()
{
  if(unlikely(++g_accesses > g_access_limit))
    over_accesses();
  if(self->no_preempt)
    return;
  if(g_gap_mem != NEVER && g_gap_mem-- == 0)
  {
    g_now += 20;
    preempt();
  }
}
static inline void on_access(const void* p, size_t n, bool w, void* ra)
{
  if(likely(!g_on) || rt_depth)
    return;
  if(!self)
    return;
  mem_point();
  do_access((uintptr_t)p, n, w, false, (uint32_t)(uintptr_t)ra - 1);
}
static inline bool is_acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static inline bool is_rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
// before the operation
static inline bool atomic_enter(const void* p, size_t n, bool w, void* ra)
{
  if(!g_active || !self || rt_depth)
    return false;
  point_sync();
  if(g_on)
    do_access((uintptr_t)p, n, w, true, (uint32_t)(uintptr_t)ra - 1);
  return true;
}
static void atomic_loaded(const void* p, int mo)
{
  SyncVar* s = sync_of(p, false);
  if(!s)
    return;
  if(is_acq(mo))
    self->vc.join(s->vc);
  else
  {
    self->acq.join(s->vc);
    self->has_acq = true;
  }
}
static void atomic_stored(const void* p, int mo, bool rmw)
{
  SyncVar* s = sync_of(p);
  if(is_rel(mo))
  {
    if(!rmw)
      memset(&s->vc, 0, sizeof s->vc);
    vc_release(s);
  }
  else
  {
    if(!rmw)
      memset(&s->vc, 0, sizeof s->vc);
    if(self->has_relf)
    {
      s->vc.join(self->relf);
    }
  }
}
static void fence(int mo)
{
  if(!in_sim() || rt_depth)
    return;
  point_sync();
  static VC seqcst;
  if(is_acq(mo) && self->has_acq)
  {
    self->vc.join(self->acq);
    self->has_acq = false;
    memset(&self->acq, 0, sizeof(VC));
  }
  if(is_rel(mo))
  {
    self->relf = self->vc;
    self->has_relf = true;
    self->vc.c[self->id]++;
  }
}
}

using namespace sim;
#define RA __builtin_return_address(0)
extern "C" {
void __tsan_init() { }
void __tsan_func_entry(void* pc)
{
  Thread* t = self;
  if(t)
  {
    if(t->sp < 64)
      t->stack[t->sp] = (uint32_t)(uintptr_t)pc;
    t->sp++;
  }
}
void __tsan_func_exit()
{
  Thread* t = self;
  if(t && t->sp > 0)
    t->sp--;
}
#define RW(N)                                                                 \
  void __tsan_read##N(void* p) { on_access(p, N, false, RA); }                \
  void __tsan_write##N(void* p) { on_access(p, N, true, RA); }                \
  void __tsan_unaligned_read##N(void* p) { on_access(p, N, false, RA); }      \
  void __tsan_unaligned_write##N(void* p) { on_access(p, N, true, RA); }      \
  void __tsan_volatile_read##N(void* p) { on_access(p, N, false, RA); }       \
  void __tsan_volatile_write##N(void* p) { on_access(p, N, true, RA); }       \
  void __tsan_unaligned_volatile_read##N(void* p) { on_access(p, N, false, RA); } \
  void __tsan_unaligned_volatile_write##N(void* p) { on_access(p, N, true, RA); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update(void** p, void* v)
{
  // a destructor of a base resets the vptr: only a real change counts
  if(*p != v)
    on_access(p, 8, true, RA);
}
void __tsan_vptr_read(void** p) { on_access(p, 8, false, RA); }
void __tsan_read_range(void* p, size_t n) { on_access(p, n, false, RA); }
void __tsan_write_range(void* p, size_t n) { on_access(p, n, true, RA); }

#define ATOMIC(B, T)                                                                        \
  T __tsan_atomic##B##_load(const volatile T* p, int mo)                                    \
  {                                                                                         \
    bool in = atomic_enter((void*)p, sizeof(T), false, RA);                                 \
    T v = __atomic_load_n(p, __ATOMIC_SEQ_CST);                                             \
    if(in)                                                                                  \
      atomic_loaded((void*)p, mo);                                                          \
    return v;                                                                               \
  }                                                                                         \
  void __tsan_atomic##B##_store(volatile T* p, T v, int mo)                                 \
  {                                                                                         \
    bool in = atomic_enter((void*)p, sizeof(T), true, RA);                                  \
    if(in)                                                                                  \
      atomic_stored((void*)p, mo, false);                                                   \
    __atomic_store_n(p, v, __ATOMIC_SEQ_CST);                                               \
  }                                                                                         \
  T __tsan_atomic##B##_exchange(volatile T* p, T v, int mo)                                 \
  {                                                                                         \
    bool in = atomic_enter((void*)p, sizeof(T), true, RA);                                  \
    if(in)                                                                                  \
    {                                                                                       \
      atomic_loaded((void*)p, mo);                                                          \
      atomic_stored((void*)p, mo, true);                                                    \
    }                                                                                       \
    return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST);                                     \
  }                                                                                         \
  bool __tsan_atomic##B##_compare_exchange_strong(volatile T* p, T* e, T v, int mo, int fmo)\
  {                                                                                         \
    bool in = atomic_enter((void*)p, sizeof(T), true, RA);                                  \
    bool ok = __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
    if(in)                                                                                  \
    {                                                                                       \
      atomic_loaded((void*)p, ok ? mo : fmo);                                               \
      if(ok)                                                                                \
        atomic_stored((void*)p, mo, true);                                                  \
    }                                                                                       \
    return ok;                                                                              \
  }                                                                                         \
  bool __tsan_atomic##B##_compare_exchange_weak(volatile T* p, T* e, T v, int mo, int fmo)  \
  {                                                                                         \
    return __tsan_atomic##B##_compare_exchange_strong(p, e, v, mo, fmo);                    \
  }                                                                                         \
  T __tsan_atomic##B##_compare_exchange_val(volatile T* p, T e, T v, int mo, int fmo)       \
  {                                                                                         \
    __tsan_atomic##B##_compare_exchange_strong(p, &e, v, mo, fmo);                          \
    return e;                                                                               \
  }                                                                                         \
  ATOMIC_RMW(B, T, fetch_add)                                                               \
  ATOMIC_RMW(B, T, fetch_sub)                                                               \
  ATOMIC_RMW(B, T, fetch_and)                                                               \
  ATOMIC_RMW(B, T, fetch_or)                                                                \
  ATOMIC_RMW(B, T, fetch_xor)                                                               \
  ATOMIC_RMW(B, T, fetch_nand)
#define ATOMIC_RMW(B, T, OP)                                \
  T __tsan_atomic##B##_##OP(volatile T* p, T v, int mo)     \
  {                                                         \
    bool in = atomic_enter((void*)p, sizeof(T), true, RA);  \
    if(in)                                                  \
    {                                                       \
      atomic_loaded((void*)p, mo);                          \
      atomic_stored((void*)p, mo, true);                    \
    }                                                       \
    return __atomic_##OP(p, v, __ATOMIC_SEQ_CST);           \
  }
ATOMIC(8, unsigned char)
ATOMIC(16, unsigned short)
ATOMIC(32, unsigned int)
ATOMIC(64, unsigned long)
void __tsan_atomic_thread_fence(int mo) { sim::fence(mo); }
void __tsan_atomic_signal_fence(int) { }

// memory block functions: checked against the shadow, then done
void* memcpy(void* __restrict d, const void* __restrict s, size_t n)
{
  if(unlikely(g_on) && n && !rt_depth && self)
  {
    on_access(s, n, false, RA);
    on_access(d, n, true, RA);
  }
  void* r = d;
  __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
  return r;
}
void* memmove(void* d, const void* s, size_t n)
{
  if(unlikely(g_on) && n && !rt_depth && self)
  {
    on_access(s, n, false, RA);
    on_access(d, n, true, RA);
  }
  void* r = d;
  if((uintptr_t)d <= (uintptr_t)s || (uintptr_t)d >= (uintptr_t)s + n)
    __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
  else
  {
    char* dd = (char*)d + n - 1;
    const char* ss = (const char*)s + n - 1;
    __asm__ volatile("std; rep movsb; cld" : "+D"(dd), "+S"(ss), "+c"(n) : : "memory");
  }
  return r;
}
void* memset(void* d, int v, size_t n)
{
  if(unlikely(g_on) && n && !rt_depth && self)
    on_access(d, n, true, RA);
  void* r = d;
  __asm__ volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(v) : "memory");
  return r;
}
}

namespace sim
{
void* real_dlsym(const char* name)
{
  struct E { const char* n; void* p; };
  static E cache[128];
  for(auto& e : cache)
  {
    if(e.n == name)
      return e.p;
    if(!e.n)
    {
      rt_scope s;
      e.p = dlsym(RTLD_NEXT, name);
      e.n = name;
      return e.p;
    }
  }
  return dlsym(RTLD_NEXT, name);
}

// =====================================================================================
// threads
struct exit_guard
{
  ~exit_guard()
  {
    Thread* t = self;
    if(!t)
      return;
    ++rt_depth;
    t->state = T_DONE;
    g_live--;
    mix_sched(0xDEAD00 + t->id);
    wake_all(t);
    g_on = g_live > 1;
    others_run(false); // never returns
    __builtin_unreachable();
  }
};
static thread_local exit_guard g_guard;
static char g_sigstk[MAXT][65536];
static void use_signal_stack(int i)
{
  stack_t ss{};
  ss.ss_sp = g_sigstk[i];
  ss.ss_size = sizeof g_sigstk[i];
  sigaltstack(&ss, nullptr);
}
static void* thread_main(void* p)
{
  Thread* t = (Thread*)p;
  use_signal_stack(t->id);
  self = t;
  baton_wait(t);
  (void)&g_guard;
  asm volatile("" : : "r"(&g_guard) : "memory");
  t->ret = t->fn(t->arg);
  return t->ret;
}
static Thread* make_thread(void* (*fn)(void*), void* arg)
{
  rt_scope s;
  if(g_nt >= MAXT)
    fail("sim-error", "too many threads");
  Thread* t = &g_t[g_nt];
  memset((void*)t, 0, sizeof *t);
  t->id = g_nt++;
  t->fn = fn;
  t->arg = arg;
  t->state = T_RUN;
  t->deadline = NEVER;
  t->runnable_since = ++g_seq;
  t->what = "";
  snprintf(t->name, sizeof t->name, "t%d", t->id);
  if(self)
  {
    t->vc = self->vc;
    self->vc.c[self->id]++;
  }
  t->vc.c[t->id] = 1;
  g_live++;
  pthread_attr_t a;
  pthread_attr_init(&a);
  pthread_attr_setstack(&a, (void*)(STACK_BASE + t->id * STACK_SIZE), STACK_SIZE);
  int r = REAL(pthread_create)(&t->real, &a, thread_main, t);
  if(r != 0)
    fail("sim-error", "pthread_create failed %d", r);
  return t;
}
static Thread* find_thread(pthread_t p)
{
  for(int i = 1; i < g_nt; i++)
    if(g_t[i].real == p)
      return &g_t[i];
  return nullptr;
}
static uint64_t ts_ns(const timespec* t) { return uint64_t(t->tv_sec) * 1000000000ull + t->tv_nsec; }
// the simulated clocks: monotonic starts at 1000 s, realtime at a fixed date
static constexpr uint64_t MONO0 = 1000ull * 1000000000ull;
static constexpr uint64_t REAL0 = 1700000000ull * 1000000000ull;
uint64_t mono_to_sim(const timespec* t)
{
  uint64_t n = ts_ns(t);
  return n <= MONO0 ? 0 : n - MONO0;
}
uint64_t real_to_sim(const timespec* t)
{
  uint64_t n = ts_ns(t);
  return n <= REAL0 ? 0 : n - REAL0;
}

// ---- mutex
static int mutex_lock(pthread_mutex_t* m, uint64_t deadline, bool try_)
{
  point_sync();
  SyncVar* s = sync_of(m);
  int kind = m->__data.__kind & 3;
  if(s->owner == self->id)
  {
    if(kind == PTHREAD_MUTEX_RECURSIVE_NP)
    {
      s->count++;
      return 0;
    }
    if(try_)
      return EBUSY;
    if(kind == PTHREAD_MUTEX_ERRORCHECK_NP)
      return EDEADLK;
  }
  while(s->owner)
  {
    if(try_)
      return EBUSY;
    if(!block_on(s, "mutex_lock", deadline) && s->owner)
      return ETIMEDOUT;
  }
  s->owner = self->id;
  s->count = 1;
  vc_acquire(s);
  return 0;
}
static int mutex_unlock(pthread_mutex_t* m)
{
  SyncVar* s = sync_of(m);
  if(s->owner == self->id && --s->count > 0)
    return 0;
  vc_release(s);
  s->owner = 0;
  s->count = 0;
  wake_all(s);
  point_sync();
  return 0;
}
}

struct rtd
{
  rtd() { ++rt_depth; }
  ~rtd() { --rt_depth; }
};

extern "C" {
int pthread_create(pthread_t* out, const pthread_attr_t*, void* (*fn)(void*), void* arg)
{
  if(!in_sim())
    return REAL(pthread_create)(out, nullptr, fn, arg);
  rtd _;
  Thread* t = make_thread(fn, arg);
  g_on = g_live > 1;
  *out = t->real;
  mix_sched(0xC0DE00 + t->id);
  point_sync();
  return 0;
}
int pthread_join(pthread_t p, void** ret)
{
  if(!in_sim())
    return REAL(pthread_join)(p, ret);
  rtd _;
  point_sync();
  Thread* t = find_thread(p);
  if(!t)
    return ESRCH;
  if(t == self)
    return EDEADLK;
  while(t->state != T_DONE)
    block_on(t, "join", NEVER);
  self->vc.join(t->vc);
  if(ret)
    *ret = t->ret;
  t->joined = true;
  return 0;
}
int pthread_detach(pthread_t p)
{
  if(!in_sim())
    return REAL(pthread_detach)(p);
  if(auto t = find_thread(p))
    t->detached = true;
  return 0;
}
int pthread_setname_np(pthread_t p, const char* n)
{
  if(in_sim())
    if(auto t = find_thread(p))
      snprintf(t->name, sizeof t->name, "%s", n);
  return 0;
}
int pthread_setschedparam(pthread_t, int, const struct sched_param*) { return 0; }
int pthread_setaffinity_np(pthread_t, size_t, const cpu_set_t*) { return 0; }

int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a)
{
  memset(m, 0, sizeof *m);
  if(a)
  {
    int k = 0;
    pthread_mutexattr_gettype(a, &k);
    m->__data.__kind = k;
  }
  if(in_sim())
  {
    rtd _;
    if(auto s = sync_of(m, false))
      s->owner = s->count = 0;
  }
  return 0;
}
int pthread_mutex_destroy(pthread_mutex_t* m) { return 0; }
int pthread_mutex_lock(pthread_mutex_t* m)
{
  if(!in_sim())
    return g_active ? 0 : REAL(pthread_mutex_lock)(m);
  rtd _;
  return mutex_lock(m, NEVER, false);
}
int pthread_mutex_trylock(pthread_mutex_t* m)
{
  if(!in_sim())
    return g_active ? 0 : REAL(pthread_mutex_trylock)(m);
  rtd _;
  return mutex_lock(m, NEVER, true);
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const timespec* t)
{
  if(!in_sim())
    return REAL(pthread_mutex_timedlock)(m, t);
  rtd _;
  return mutex_lock(m, real_to_sim(t), false);
}
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const timespec* t)
{
  if(!in_sim())
    return REAL(pthread_mutex_lock)(m);
  rtd _;
  return mutex_lock(m, c == CLOCK_MONOTONIC ? mono_to_sim(t) : real_to_sim(t), false);
}
int pthread_mutex_unlock(pthread_mutex_t* m)
{
  if(!in_sim())
    return g_active ? 0 : REAL(pthread_mutex_unlock)(m);
  rtd _;
  return mutex_unlock(m);
}

// ---- condition variables
int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t* a)
{
  memset(c, 0, sizeof *c);
  if(a)
  {
    clockid_t k = CLOCK_REALTIME;
    pthread_condattr_getclock(a, &k);
    if(k == CLOCK_MONOTONIC)
      c->__data.__g_refs[0] = 77;
  }
  return 0;
}
int pthread_cond_destroy(pthread_cond_t*) { return 0; }
static int cond_wait(pthread_cond_t* c, pthread_mutex_t* m, uint64_t deadline)
{
  rtd _;
  point_sync();
  SyncVar* s = sync_of(m);
  int cnt = s->count;
  s->count = 1;
  // release without a schedule point in between: wait is atomic
  vc_release(s);
  s->owner = 0;
  s->count = 0;
  wake_all(s);
  bool ok;
  if(sim::fault("spurious_wakeup", 20))
  {
    sim::yield();
    ok = true;
  }
  else
    ok = block_on(c, "cond_wait", deadline);
  while(s->owner)
    block_on(s, "mutex_lock", NEVER);
  s->owner = self->id;
  s->count = cnt;
  vc_acquire(s);
  return ok ? 0 : ETIMEDOUT;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
  if(!in_sim())
    return REAL(pthread_cond_wait)(c, m);
  return cond_wait(c, m, NEVER);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* t)
{
  if(!in_sim())
    return REAL(pthread_cond_timedwait)(c, m, t);
  return cond_wait(c, m, c->__data.__g_refs[0] == 77 ? mono_to_sim(t) : real_to_sim(t));
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const timespec* t)
{
  if(!in_sim())
    return REAL(pthread_cond_clockwait)(c, m, k, t);
  return cond_wait(c, m, k == CLOCK_MONOTONIC ? mono_to_sim(t) : real_to_sim(t));
}
int pthread_cond_signal(pthread_cond_t* c)
{
  if(!in_sim())
    return g_active ? 0 : REAL(pthread_cond_signal)(c);
  rtd _;
  point_sync();
  wake_one(c);
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c)
{
  if(!in_sim())
    return g_active ? 0 : REAL(pthread_cond_broadcast)(c);
  rtd _;
  point_sync();
  wake_all(c);
  return 0;
}

// ---- rwlocks
int pthread_rwlock_init(pthread_rwlock_t* l, const pthread_rwlockattr_t*)
{
  memset(l, 0, sizeof *l);
  return 0;
}
int pthread_rwlock_destroy(pthread_rwlock_t*) { return 0; }
static int rdlock(pthread_rwlock_t* l, uint64_t dl, bool try_)
{
  rtd _;
  point_sync();
  SyncVar* s = sync_of(l);
  while(s->owner)
  {
    if(try_)
      return EBUSY;
    if(!block_on(s, "rwlock_rdlock", dl) && s->owner)
      return ETIMEDOUT;
  }
  s->readers++;
  vc_acquire(s);
  return 0;
}
static int wrlock(pthread_rwlock_t* l, uint64_t dl, bool try_)
{
  rtd _;
  point_sync();
  SyncVar* s = sync_of(l);
  if(s->owner == self->id)
    return try_ ? EBUSY : EDEADLK;
  while(s->owner || s->readers)
  {
    if(try_)
      return EBUSY;
    if(!block_on(s, "rwlock_wrlock", dl) && (s->owner || s->readers))
      return ETIMEDOUT;
  }
  s->owner = self->id;
  vc_acquire(s);
  self->vc.join(s->rvc);
  return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* l)
{
  if(!in_sim())
    return 0;
  return rdlock(l, NEVER, false);
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l)
{
  if(!in_sim())
    return 0;
  return rdlock(l, NEVER, true);
}
int pthread_rwlock_wrlock(pthread_rwlock_t* l)
{
  if(!in_sim())
    return 0;
  return wrlock(l, NEVER, false);
}
int pthread_rwlock_trywrlock(pthread_rwlock_t* l)
{
  if(!in_sim())
    return 0;
  return wrlock(l, NEVER, true);
}
int pthread_rwlock_clockrdlock(pthread_rwlock_t* l, clockid_t c, const timespec* t)
{
  return rdlock(l, c == CLOCK_MONOTONIC ? mono_to_sim(t) : real_to_sim(t), false);
}
int pthread_rwlock_clockwrlock(pthread_rwlock_t* l, clockid_t c, const timespec* t)
{
  return wrlock(l, c == CLOCK_MONOTONIC ? mono_to_sim(t) : real_to_sim(t), false);
}
int pthread_rwlock_unlock(pthread_rwlock_t* l)
{
  if(!in_sim())
    return 0;
  rtd _;
  SyncVar* s = sync_of(l);
  if(s->owner == self->id)
  {
    vc_release(s);
    s->owner = 0;
  }
  else if(s->readers > 0)
  {
    s->rvc.join(self->vc);
    self->vc.c[self->id]++;
    s->readers--;
  }
  wake_all(s);
  point_sync();
  return 0;
}

// ---- semaphores
int sem_init(sem_t* s, int, unsigned v)
{
  memset(s, 0, sizeof *s);
  *(unsigned*)s = v;
  return 0;
}
int sem_destroy(sem_t*) { return 0; }
static int sem_wait_impl(sem_t* s, uint64_t dl, bool try_)
{
  rtd _;
  point_sync();
  unsigned* v = (unsigned*)s;
  if(!try_ && sim::fault("eintr", 10))
  {
    errno = EINTR;
    return -1;
  }
  while(*v == 0)
  {
    if(try_)
    {
      errno = EAGAIN;
      return -1;
    }
    if(!block_on(s, "sem_wait", dl) && *v == 0)
    {
      errno = ETIMEDOUT;
      return -1;
    }
  }
  --*v;
  hb_acquire(s);
  return 0;
}
int sem_wait(sem_t* s) { return sem_wait_impl(s, NEVER, false); }
int sem_trywait(sem_t* s) { return sem_wait_impl(s, NEVER, true); }
int sem_timedwait(sem_t* s, const timespec* t) { return sem_wait_impl(s, real_to_sim(t), false); }
int sem_clockwait(sem_t* s, clockid_t c, const timespec* t)
{
  return sem_wait_impl(s, c == CLOCK_MONOTONIC ? mono_to_sim(t) : real_to_sim(t), false);
}
int sem_post(sem_t* s)
{
  rtd _;
  ++*(unsigned*)s;
  if(in_sim())
  {
    hb_release(s);
    wake_all(s);
    point_sync();
  }
  return 0;
}

// ---- once, static guards
int pthread_once(pthread_once_t* o, void (*f)())
{
  if(!in_sim())
  {
    if(*o == 0)
    {
      *o = 2;
      f();
    }
    return 0;
  }
  {
    rtd _;
    point_sync();
    while(*o == 1)
      block_on(o, "once", NEVER);
    if(*o == 2)
    {
      hb_acquire(o);
      return 0;
    }
    *o = 1;
  }
  struct done
  {
    pthread_once_t* o;
    int v = 0;
    ~done()
    {
      rtd _;
      *o = v;
      hb_release(o);
      wake_all(o);
    }
  } d{o};
  f();
  d.v = 2;
  return 0;
}
// takes a lock of the C library and may allocate under it
int __cxa_atexit(void (*f)(void*), void* a, void* d)
{
  static int (*real)(void (*)(void*), void*, void*);
  rtd _;
  if(!real)
    real = (decltype(real))dlsym(RTLD_NEXT, "__cxa_atexit");
  return real(f, a, d);
}
int __cxa_guard_acquire(uint64_t* g)
{
  char* b = (char*)g;
  if(!in_sim())
  {
    if(b[0])
      return 0;
    b[1] = 1;
    return 1;
  }
  rtd _;
  point_sync();
  for(;;)
  {
    if(b[0])
    {
      hb_acquire(g);
      return 0;
    }
    if(!b[1])
    {
      b[1] = 1;
      return 1;
    }
    block_on(g, "static initialisation", NEVER);
  }
}
void __cxa_guard_release(uint64_t* g)
{
  char* b = (char*)g;
  b[1] = 0;
  b[0] = 1;
  if(in_sim())
  {
    rtd _;
    hb_release(g);
    wake_all(g);
  }
}
void __cxa_guard_abort(uint64_t* g)
{
  ((char*)g)[1] = 0;
  if(in_sim())
  {
    rtd _;
    hb_release(g);
    wake_all(g);
  }
}

// ---- time
int clock_gettime(clockid_t c, timespec* t)
{
  if(!in_sim())
  {
    if(g_active && g_cur)
    { /* static code of the child before the run: still simulated */
    }
    return raw_syscall6(SYS_clock_gettime, c, (long)t, 0, 0, 0, 0);
  }
  if(c == CLOCK_THREAD_CPUTIME_ID || c == CLOCK_PROCESS_CPUTIME_ID)
  {
    t->tv_sec = g_now / 1000000000ull;
    t->tv_nsec = g_now % 1000000000ull;
    return 0;
  }
  {
    rtd _;
    point_sync();
  }
  // who does nothing but read the clock waits for a date: a turn then takes longer
  self->clk_run = g_steps - self->clk_step < 200 ? self->clk_run + 1 : 0;
  self->clk_step = g_steps;
  g_now += 30u << std::min(self->clk_run / 32, 8u);
  uint64_t v = g_now + (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE ? REAL0 : MONO0);
  t->tv_sec = v / 1000000000ull;
  t->tv_nsec = v % 1000000000ull;
  return 0;
}
int gettimeofday(timeval* tv, void*)
{
  timespec t;
  clock_gettime(CLOCK_REALTIME, &t);
  tv->tv_sec = t.tv_sec;
  tv->tv_usec = t.tv_nsec / 1000;
  return 0;
}
time_t time(time_t* p)
{
  timespec t;
  clock_gettime(CLOCK_REALTIME, &t);
  if(p)
    *p = t.tv_sec;
  return t.tv_sec;
}
int nanosleep(const timespec* t, timespec* rem)
{
  if(!in_sim())
    return raw_syscall6(SYS_nanosleep, (long)t, (long)rem, 0, 0, 0, 0);
  rtd _;
  sim::sleep_ns(ts_ns(t));
  return 0;
}
int clock_nanosleep(clockid_t c, int flags, const timespec* t, timespec* rem)
{
  if(!in_sim())
    return -raw_syscall6(SYS_clock_nanosleep, c, flags, (long)t, (long)rem, 0, 0);
  rtd _;
  if(flags & TIMER_ABSTIME)
  {
    uint64_t d = c == CLOCK_MONOTONIC ? mono_to_sim(t) : real_to_sim(t);
    sim::sleep_ns(d > g_now ? d - g_now : 1);
  }
  else
    sim::sleep_ns(ts_ns(t));
  return 0;
}
int usleep(useconds_t u)
{
  timespec t{time_t(u / 1000000), long(u % 1000000) * 1000};
  return nanosleep(&t, nullptr);
}
unsigned sleep(unsigned s)
{
  timespec t{(time_t)s, 0};
  nanosleep(&t, nullptr);
  return 0;
}
int sched_yield()
{
  if(in_sim())
  {
    rtd _;
    sim::yield();
  }
  return 0;
}
int get_nprocs() { return 4; }
int sched_getaffinity(pid_t, size_t n, cpu_set_t* s)
{
  memset(s, 0, n);
  for(int i = 0; i < 4; i++)
    CPU_SET(i, s);
  return 0;
}
pid_t gettid() { return in_sim() ? 1000 + self->id : (pid_t)raw_syscall6(SYS_gettid, 0, 0, 0, 0, 0, 0); }
int getentropy(void* b, size_t n)
{
  if(!in_sim())
    return raw_syscall6(SYS_getrandom, (long)b, n, 0, 0, 0, 0) == (long)n ? 0 : -1;
  rtd _;
  for(size_t i = 0; i < n; i++)
    ((unsigned char*)b)[i] = draw(W, 256);
  return 0;
}
ssize_t getrandom(void* b, size_t n, unsigned)
{
  getentropy(b, n);
  return n;
}

// futex users (std::atomic::wait, std::counting_semaphore, ...) and gettid
long syscall(long n, ...)
{
  va_list ap;
  va_start(ap, n);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long),
       e = va_arg(ap, long), f = va_arg(ap, long);
  va_end(ap);
  if(in_sim())
  {
    if(n == SYS_gettid)
      return 1000 + self->id;
    if(n == SYS_futex)
    {
      rtd _;
      uint32_t* u = (uint32_t*)a;
      int op = (int)b & 127;
      point_sync();
      if(op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET)
      {
        if(*u != (uint32_t)c)
        {
          errno = EAGAIN;
          return -1;
        }
        uint64_t dl = NEVER;
        if(d)
        {
          const timespec* t = (const timespec*)d;
          if(op == FUTEX_WAIT)
            dl = g_now + ts_ns(t);
          else
            dl = (b & FUTEX_CLOCK_REALTIME) ? real_to_sim(t) : mono_to_sim(t);
        }
        if(!block_on(u, "futex", dl))
        {
          errno = ETIMEDOUT;
          return -1;
        }
        return 0;
      }
      if(op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET)
      {
        int k = 0;
        for(long i = 0; i < c && wake_one(u); i++)
          k++;
        return k;
      }
    }
  }
  long r = raw_syscall6(n, a, b, c, d, e, f);
  if(r < 0 && r > -4096)
  {
    errno = -r;
    return -1;
  }
  return r;
}
}

// std::random_device: deterministic in a run
#include <random>
namespace std
{
random_device::result_type random_device::_M_getval()
{
  if(sim::in_sim())
  {
    rtd _;
    return sim::draw(sim::W, 0xFFFFFFFF);
  }
  return 4;
}
}

namespace sim
{
// =====================================================================================
// running one simulated execution in this (forked) process
static const scenario* g_sc;
static void* scenario_main(void*)
{
  g_sc->fn();
  rtd _;
  log("end of run");
  finish(1);
  return nullptr;
}
static void on_signal(int sig, siginfo_t* si, void* uc)
{
  static int depth = 0;
  ++rt_depth;
  g_on = false;
  if(depth++)
    raw_syscall6(SYS_exit_group, 98, 0, 0, 0, 0, 0);
  if(!self)
  {
    snprintf(g_res->cls, sizeof g_res->cls, "sim-error");
    finish(3);
  }
  char b[1500];
  int n = 0;
  const char* nm = sig == SIGSEGV ? "SIGSEGV" : sig == SIGABRT ? "SIGABRT" : sig == SIGFPE ? "SIGFPE"
                   : sig == SIGBUS ? "SIGBUS" : sig == SIGILL ? "SIGILL" : "signal";
  char st[1000] = "";
  stack_text(st, sizeof st);
  char cls[100];
  uintptr_t where = sig == SIGSEGV && si ? (uintptr_t)si->si_addr : 0;
  if(where >= STACK_BASE && where < SHADOWED_END && (where - STACK_BASE) % STACK_SIZE < STACK_GUARD)
    snprintf(cls, sizeof cls, "stack-overflow");
  else
    snprintf(cls, sizeof cls, "crash-%s", nm);
  snprintf(b, sizeof b, "%s at address %p%s", nm, si ? si->si_addr : nullptr, st);
  fail(cls, "%s", b);
}
static void on_terminate()
{
  ++rt_depth;
  g_on = false;
  const char* what = "?";
  char tn[300] = "?";
  std::string keep;
  if(auto p = std::current_exception())
  {
    try
    {
      std::rethrow_exception(p);
    }
    catch(const std::exception& e)
    {
      keep = e.what();
      what = keep.c_str();
      int st;
      char* d = abi::__cxa_demangle(typeid(e).name(), nullptr, nullptr, &st);
      snprintf(tn, sizeof tn, "%s", d ? d : typeid(e).name());
    }
    catch(...)
    {
      snprintf(tn, sizeof tn, "unknown exception");
    }
  }
  char st[800] = "";
  if(self)
    stack_text(st, sizeof st);
  fail("terminate", "std::terminate with %s: %s%s", tn, what, st);
}
static void seed_stream(uint64_t seed, int s)
{
  uint64_t x = seed * 0x9E3779B97F4A7C15ull + s * 0xD1B54A32D192ED03ull + 1;
  for(int i = 0; i < 2; i++)
  {
    x += 0x9E3779B97F4A7C15ull;
    uint64_t z = x;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    g_rng[s][i] = z ^ (z >> 31);
  }
}
void run_child(const scenario& sc, const run_input& in, result* out)
{
  ++rt_depth;
  g_res = out;
  g_in = &in;
  g_sc = &sc;
  g_verbose = in.verbose;
  memset(out, 0, offsetof(result, stream));
  out->samplelen = 0;
  out->sample[0] = 0;
  g_now = g_seq = g_steps = g_switches = g_accesses = 0;
  g_limit = 3000000;
  g_access_limit = 400000000;
  g_hash = g_schedhash = 0xcbf29ce484222325ull;
  g_nt = 1;
  g_live = 0;
  g_race_on = true;
  g_faults_off = false;
  g_poison = true;
  g_events = new std::remove_reference_t<decltype(*g_events)>;
  g_othersync = new std::remove_reference_t<decltype(*g_othersync)>;
  g_sync = (SyncVar*)mmap(
      nullptr, sizeof(SyncVar) * MAX_SYNC, PROT_READ | PROT_WRITE,
      MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  g_nsync = 0;
  for(int i = 0; i < 3; i++)
  {
    g_pos[i] = 0;
    seed_stream(in.seed, i);
  }
  if(!g_verbose)
  {
    int fd = open("/dev/null", O_RDWR);
    dup2(fd, 1);
    dup2(fd, 2);
  }
  use_signal_stack(0);
  struct sigaction sa{};
  sa.sa_sigaction = on_signal;
  sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
  for(int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL})
    sigaction(s, &sa, nullptr);
  signal(SIGPIPE, SIG_IGN);
  std::set_terminate(on_terminate);

  // swarm: what this run does about preemption and faults
  g_active = true;
  static const unsigned means[][2] = {{0, 0}, {0, 0}, {400, 0}, {100, 0}, {30, 0}, {8, 0}, {3, 0},
                                      {100, 3000}, {30, 500}, {10, 100}, {400, 10000}, {4, 30},
                                      {5, 12}, {12, 60}, {0, 200}, {6, 200}};
  uint32_t prof = draw(S, 16);
  g_mean_sync = means[prof][0];
  g_mean_mem = means[prof][1];
  g_faults_any = draw(F, 4) != 0;
  g_fault_mask_seed = draw(F, 1 << 16);
  static const unsigned stp[] = {0, 0, 50, 300};
  g_stall_permille = g_faults_any ? stp[draw(F, 4)] : 0;
  draw_gaps();
  net_reset();
  fs_reset();

  Thread* t = make_thread(scenario_main, nullptr);
  snprintf(t->name, sizeof t->name, "main");
  g_cur = t;
  g_on = false;
  __atomic_store_n(&t->baton, 1, __ATOMIC_RELEASE);
  raw_futex(&t->baton, FUTEX_WAKE | FUTEX_PRIVATE_FLAG, 1);
  for(;;)
  {
    uint32_t z = 0;
    raw_futex(&z, FUTEX_WAIT | FUTEX_PRIVATE_FLAG, 0);
  }
}
}
