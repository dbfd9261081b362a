// Public interface of the deterministic simulator, as scenarios see it.
#pragma once
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace sim
{
// ---- choices. Every nondeterministic decision of a run comes from one of three
// recorded streams; 0 is always the plainest alternative.
uint32_t choose(uint32_t n);              // workload stream: value in [0, n)
inline bool chance(uint32_t num, uint32_t den) { return choose(den) >= den - num; }
template <typename T> T pick(std::initializer_list<T> l)
{
  return l.begin()[choose((uint32_t)l.size())];
}
template <typename T> auto& pick_from(T& v) { return v[choose((uint32_t)v.size())]; }
uint32_t fchoose(uint32_t n);             // fault stream
// One fault decision. Fires with probability permille/1000 when the kind is among
// those enabled for this run (a random subset, swarm style). Counted in the evidence.
bool fault(const char* kind, unsigned permille);
bool fault_enabled(const char* kind);
void fault_fired(const char* kind);       // count a fault decided elsewhere
void faults_off();                        // from now on no fault fires
bool stalls();                            // may threads be stalled in this run
bool faults_any();                        // does this run inject any fault at all

// ---- observation
void probe(const char* name);             // "this rare condition was reached"
void log(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] void fail(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
#define SIM_CHECK(cond, cls, ...) \
  do                              \
  {                               \
    if(!(cond))                   \
      ::sim::fail(cls, __VA_ARGS__); \
  } while(0)
uint64_t seq();                           // global event sequence number (strictly increasing)

// ---- time and threads
uint64_t now_ns();
void sleep_ns(uint64_t ns);
void yield();                             // schedule point at which others may run
void after(uint64_t ns, std::function<void()> f); // run f in the simulator at now+ns
int thread_id();
int live_threads();
void cooperate(unsigned mean_sync, unsigned mean_mem); // override preemption gaps
// run until nobody but the caller can run and nothing is in flight, or max_ns passes
bool settle(uint64_t max_ns);
void log_threads();                       // for the log of a failure
void sync_all();                          // a global barrier in the happens-before order
// code of the harness that keeps records: neither scheduled nor checked for races
struct oracle
{
  oracle();
  ~oracle();
  oracle(const oracle&) = delete;
};
void races(bool on);                      // happens-before race detection
void no_preempt(bool on);                 // suspend preemption (for oracle code)
struct atomic_section
{
  atomic_section() { no_preempt(true); }
  ~atomic_section() { no_preempt(false); }
};
// marks the run as judged by the clock: step limit reached => "no-progress"
void step_limit(uint64_t points);

// ---- network
struct net_config
{
  unsigned lat_min_us = 50, lat_jitter_us = 0;
  unsigned udp_loss = 0, udp_dup = 0, udp_reorder = 0, udp_corrupt = 0; // permille
  unsigned short_read = 0, short_write = 0, segment = 0;                // permille
  unsigned tcp_reset = 0;                                               // permille per segment
  unsigned refuse = 0;                                                  // permille per connect
  unsigned send_error = 0;                                              // permille per udp send
  unsigned accept_error = 0, accept_again = 0, resolve_error = 0;       // permille
  std::size_t tcp_buffer = 65536;
  std::size_t udp_queue = 1u << 20;
};
net_config& net();
void net_random_faults();                 // swarm configuration of the above from the fault stream
void partition(int port_a, bool on);      // stall (tcp) or drop (udp) all traffic to/from that port
unsigned open_sockets();                  // sockets the code under test holds open
void log_sockets();                       // all of them, for the log of a failure
void reset_connections(int port);         // RST every established tcp connection of that port
struct net_stats
{
  uint64_t udp_sent, udp_delivered, udp_lost, udp_dup, udp_reordered, tcp_bytes, tcp_resets, in_flight;
};
net_stats& nstats();

// ---- disk
struct fs_config
{
  std::string root;                       // only files below this prefix are faulted
  unsigned short_write = 0, enospc = 0, eio_read = 0, short_read = 0, open_fail = 0, eio_close = 0; // permille
  long capacity = -1;                     // bytes that fit before ENOSPC
};
fs_config& fs();

// ---- registration
struct scenario
{
  const char* property;
  const char* name;
  void (*fn)();
  unsigned weight;                        // share of the runs
  scenario* next;
  scenario(const char* p, const char* n, void (*f)(), unsigned w = 1);
};
#define SIM_SCENARIO(PROP, NAME, ...)                                   \
  static void simfn_##NAME();                                           \
  static ::sim::scenario simreg_##NAME(PROP, #NAME, simfn_##NAME, ##__VA_ARGS__); \
  static void simfn_##NAME()
}
