// Internal interface between the parts of the simulator (not for scenarios).
#pragma once
#include "sim.hpp"
#include <cstring>
#include <time.h>

namespace sim
{
constexpr int MAXT = 40;
constexpr uint64_t NEVER = ~0ull;

// ---- memory layout (fixed, so that pointer values are the same in every run)
constexpr uintptr_t GLOBALS_END = 0x8000000;          // non-PIE image lives below
constexpr uintptr_t HEAP_BASE = 0x10000000000;
constexpr uintptr_t HEAP_SIZE = 0xC0000000;           // 3 GB
constexpr uintptr_t STACK_BASE = HEAP_BASE + HEAP_SIZE;
constexpr uintptr_t STACK_SIZE = 0x800000;            // 8 MB each, the usual limit
constexpr uintptr_t STACK_GUARD = 0x10000;            // of which these are not accessible
constexpr uintptr_t SHADOWED_END = STACK_BASE + MAXT * STACK_SIZE;
constexpr uintptr_t RT_BASE = 0x20000000000;
constexpr uintptr_t RT_SIZE = 0x100000000;
constexpr uintptr_t SHADOW_BASE = 0x30000000000;

struct stream_rec
{
  uint32_t n;       // recorded length
  uint32_t cap;
  uint32_t* v;
};
enum { W = 0, S = 1, F = 2 };

constexpr uint32_t STREAM_CAP = 1u << 20;
constexpr int MAX_COUNTERS = 96;
struct counter { char name[40]; uint64_t n; };
// one per worker, in shared memory
struct result
{
  int status;             // 0 running, 1 ok, 2 violation, 3 error (crash of the harness etc)
  char cls[160];
  char msg[2000];
  uint64_t hash, steps, switches, sim_ns, schedhash;
  int ncounters;
  counter counters[MAX_COUNTERS];
  uint32_t len[3];
  uint32_t stream[3][STREAM_CAP];
  uint32_t samplelen;
  char sample[6000];
};
struct run_input
{
  uint64_t seed;          // fresh run when replay is false
  bool replay;
  bool verbose;
  const uint32_t* stream[3];
  uint32_t len[3];
};

struct rt_scope { rt_scope(); ~rt_scope(); };   // allocations go to the runtime arena

extern bool g_active;       // a simulated run is going on in this process
bool in_sim();              // ... and the caller is one of its threads
void run_child(const scenario& sc, const run_input& in, result* out); // never returns

void point_sync();                              // a schedule point
// block the calling thread on (obj); returns false on timeout
bool block_on(const void* obj, const char* what, uint64_t deadline);
void wake_all(const void* obj);
bool wake_one(const void* obj);                 // scheduler picks among the waiters
int waiters(const void* obj);
uint64_t schedule_event(uint64_t at_ns, std::function<void()> f);
void mix(uint64_t v);
void hb_release(const void* addr);
void hb_acquire(const void* addr);
uint64_t rt_now();
uint64_t mono_to_sim(const timespec*);
uint64_t real_to_sim(const timespec*);
void count(const char* prefix, const char* name, uint64_t n = 1);
void crash_exit(const char* cls, const char* msg);
uint64_t pending_events();
void init_symbols();

// net.cpp
bool is_sim_fd(int fd);
void net_reset();
uint64_t net_in_flight();
// fs.cpp
void fs_reset();

template <typename FN>
FN real_sym(const char* name);
void* real_dlsym(const char* name);
#define REAL(name) ((decltype(&::name))::sim::real_dlsym(#name))
}
