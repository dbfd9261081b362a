// The simulated network: the sockets API over in-memory endpoints. UDP, TCP, unix
// sockets, eventfd and pipes; delays, losses, segmentation and resets come from the
// recorded fault stream. Everything is on the loopback address; ports tell nodes apart.
#include "rt.hpp"

#include <arpa/inet.h>
#include <errno.h>
#include <fcntl.h>
#include <netdb.h>
#include <netinet/in.h>
#include <poll.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/eventfd.h>
#include <sys/ioctl.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/uio.h>
#include <sys/un.h>
#include <unistd.h>

#include <algorithm>
#include <deque>
#include <map>
#include <memory>
#include <set>
#include <vector>

extern "C" void __tsan_read_range(void*, unsigned long);
extern "C" void __tsan_write_range(void*, unsigned long);
ssize_t sim_fs_read(int fd, void* b, size_t n);
ssize_t sim_fs_write(int fd, const void* b, size_t n);
int sim_fs_close(int fd);

namespace sim
{
constexpr int FD0 = 700, FD1 = 1000;
enum kind_t { K_UDP, K_TCP, K_UNIX, K_UNIXD, K_EVENT, K_PIPE };
struct addr
{
  int fam = AF_UNSPEC;
  uint32_t ip = 0;
  uint16_t port = 0;
  std::string path;
};
struct ep;
using ep_p = std::shared_ptr<ep>;
struct dgram
{
  std::string data;
  addr from;
};
struct ep
{
  kind_t kind{};
  int fam = AF_INET;
  bool nonblock = false, reuse = false, broadcast = false, linger0 = false, v6only = false;
  bool open = true;
  addr local, remote;
  bool bound = false;
  int so_error = 0;
  // datagrams
  std::deque<dgram> q;
  size_t qbytes = 0;
  bool dconn = false;
  // streams
  enum { NONE, LISTEN, CONNECTING, CONN, DEAD } st = NONE;
  std::string rx;
  bool rx_eof = false, rst = false, tx_shut = false, rd_shut = false;
  size_t inflight = 0;              // bytes travelling towards this endpoint
  uint64_t last_at = 0;             // last delivery time towards this endpoint
  std::weak_ptr<ep> peer;
  bool peer_gone = false;           // peer closed completely: data sent there is answered by RST
  std::deque<ep_p> backlog;
  uint64_t counter = 0;             // eventfd
  int refs = 0;                     // descriptors
};
static std::map<int, ep_p>* g_fds;
static std::vector<std::weak_ptr<ep>>* g_eps;
static std::map<std::string, std::weak_ptr<ep>>* g_paths;
static std::set<int>* g_part;
static net_config* g_cfg;
static net_stats* g_stats;
static char g_chan;                 // one wait channel for everything
static uint16_t g_ephemeral;
// ports of connections which this side closed first, until when: they can only be bound with SO_REUSEADDR
static std::map<uint16_t, uint64_t>* g_timewait;

bool is_sim_fd(int fd) { return fd >= FD0 && fd < FD1; }
net_config& net() { return *g_cfg; }
net_stats& nstats() { return *g_stats; }
void net_reset()
{
  rt_scope s;
  g_fds = new std::map<int, ep_p>;
  g_eps = new std::vector<std::weak_ptr<ep>>;
  g_paths = new std::map<std::string, std::weak_ptr<ep>>;
  g_part = new std::set<int>;
  g_cfg = new net_config;
  g_stats = new net_stats{};
  g_ephemeral = 40000;
  g_timewait = new std::map<uint16_t, uint64_t>;
}
uint64_t net_in_flight() { return g_stats->in_flight; }
static void changed() { wake_all(&g_chan); }
void partition(int port, bool on)
{
  rt_scope s;
  if(on)
  {
    g_part->insert(port);
    fault_fired("partition");
  }
  else
    g_part->erase(port);
}
static bool parted(int a, int b) { return g_part->count(a) || g_part->count(b); }
static bool rnd(unsigned permille, const char* what)
{
  if(!permille || !faults_any())
    return false;
  if(fchoose(1000) >= 1000 - permille)
  {
    fault_fired(what);
    return true;
  }
  return false;
}
void net_random_faults()
{
  if(!faults_any())
    return;
  auto& c = net();
  auto opt = [](std::initializer_list<unsigned> l) { return l.begin()[fchoose((uint32_t)l.size())]; };
  c.lat_min_us = opt({50, 1, 500, 5000});
  c.lat_jitter_us = opt({0, 100, 3000, 30000});
  c.udp_loss = opt({0, 0, 20, 150, 400});
  c.udp_dup = opt({0, 0, 30, 200});
  c.udp_reorder = opt({0, 0, 50, 300});
  c.short_read = opt({0, 0, 100, 600});
  c.short_write = opt({0, 0, 100, 600});
  c.segment = opt({0, 200, 700});
  c.tcp_buffer = opt({65536, 65536, 256, 33});
}
static uint64_t latency()
{
  uint64_t ns = uint64_t(g_cfg->lat_min_us) * 1000;
  if(g_cfg->lat_jitter_us)
    ns += uint64_t(fchoose(g_cfg->lat_jitter_us)) * 1000;
  return ns;
}

// ---- addresses
static bool from_sa(const sockaddr* sa, socklen_t len, addr& a)
{
  if(!sa || len < sizeof(sa_family_t))
    return false;
  a.fam = sa->sa_family;
  if(sa->sa_family == AF_INET && len >= sizeof(sockaddr_in))
  {
    auto p = (const sockaddr_in*)sa;
    a.ip = ntohl(p->sin_addr.s_addr);
    a.port = ntohs(p->sin_port);
    return true;
  }
  if(sa->sa_family == AF_INET6 && len >= 24)
  {
    auto p = (const sockaddr_in6*)sa;
    a.port = ntohs(p->sin6_port);
    const uint8_t* b = p->sin6_addr.s6_addr;
    bool any = true;
    for(int i = 0; i < 16; i++)
      any &= b[i] == 0;
    a.ip = any ? 0 : 0x7f000001;
    return true;
  }
  if(sa->sa_family == AF_UNIX)
  {
    auto p = (const sockaddr_un*)sa;
    size_t n = len - offsetof(sockaddr_un, sun_path);
    size_t l = strnlen(p->sun_path, n);
    a.path.assign(p->sun_path, l);
    return true;
  }
  return false;
}
static void to_sa(const addr& a, int fam, sockaddr* out, socklen_t* len)
{
  if(!out || !len)
    return;
  sockaddr_storage ss;
  memset(&ss, 0, sizeof ss);
  socklen_t n = 0;
  if(fam == AF_INET)
  {
    auto p = (sockaddr_in*)&ss;
    p->sin_family = AF_INET;
    p->sin_addr.s_addr = htonl(a.ip);
    p->sin_port = htons(a.port);
    n = sizeof *p;
  }
  else if(fam == AF_INET6)
  {
    auto p = (sockaddr_in6*)&ss;
    p->sin6_family = AF_INET6;
    p->sin6_port = htons(a.port);
    if(a.ip)
    {
      p->sin6_addr.s6_addr[10] = p->sin6_addr.s6_addr[11] = 0xff;
      uint32_t v = htonl(a.ip);
      memcpy(p->sin6_addr.s6_addr + 12, &v, 4);
    }
    n = sizeof *p;
  }
  else
  {
    auto p = (sockaddr_un*)&ss;
    p->sun_family = AF_UNIX;
    size_t l = std::min(a.path.size(), sizeof(p->sun_path) - 1);
    memcpy(p->sun_path, a.path.data(), l);
    n = offsetof(sockaddr_un, sun_path) + (l ? l + 1 : 0);
  }
  memcpy(out, &ss, std::min<socklen_t>(*len, n));
  *len = n;
}
static ep_p get(int fd)
{
  auto it = g_fds->find(fd);
  return it == g_fds->end() ? nullptr : it->second;
}
static int install(ep_p e)
{
  for(int i = FD0; i < FD1; i++)
    if(!g_fds->count(i))
    {
      (*g_fds)[i] = e;
      e->refs++;
      return i;
    }
  errno = EMFILE;
  return -1;
}
static ep_p make(kind_t k, int fam)
{
  auto e = std::make_shared<ep>();
  e->kind = k;
  e->fam = fam;
  g_eps->push_back(e);
  if(g_eps->size() % 64 == 0)
    g_eps->erase(
        std::remove_if(g_eps->begin(), g_eps->end(), [](auto& w) { return w.expired(); }), g_eps->end());
  return e;
}
static int err(int e)
{
  errno = e;
  return -1;
}
template <typename F>
static void each_ep(F f)
{
  for(size_t i = 0; i < g_eps->size(); i++)
    if(auto e = (*g_eps)[i].lock())
      if(e->open)
        f(e);
}
static uint16_t fresh_port()
{
  return ++g_ephemeral;
}
static void auto_bind(const ep_p& e)
{
  if(e->bound || (e->kind != K_UDP && e->kind != K_TCP))
    return;
  e->local.fam = e->fam;
  e->local.port = fresh_port();
  e->bound = true;
}

// ---- datagrams
static bool is_multi(uint32_t ip) { return ip == 0xffffffff || (ip >> 28) == 0xe; }
static const void* port_sync(uint16_t port)
{
  return (const void*)(uintptr_t)(0x7000 + port * 16ul);
}
static void udp_deliver(uint32_t dst_ip, uint16_t port, const addr& from, std::string data, std::weak_ptr<ep> src)
{
  std::vector<ep_p> to;
  each_ep([&](const ep_p& e) {
    if(e->kind == K_UDP && e->bound && e->local.port == port)
      if(!e->dconn || (e->remote.port == from.port))
        to.push_back(e);
  });
  if(to.empty())
  {
    if(auto s = src.lock())
      if(s->dconn && s->open && !is_multi(dst_ip))
      {
        s->so_error = ECONNREFUSED;
        fault_fired("udp_refused");
        changed();
      }
    return;
  }
  if(!is_multi(dst_ip))
    to = {to.back()};
  for(auto& e : to)
  {
    if(e->qbytes + data.size() > g_cfg->udp_queue)
    {
      fault_fired("udp_queue_overflow");
      continue;
    }
    e->qbytes += data.size();
    e->q.push_back({data, from});
    g_stats->udp_delivered++;
  }
  changed();
}
static ssize_t udp_send(const ep_p& e, const addr& to, std::string data)
{
  auto_bind(e);
  if(data.size() > 65507)
    return err(EMSGSIZE);
  if(is_multi(to.ip) && to.ip == 0xffffffff && !e->broadcast)
    return err(EACCES);
  if(e->so_error)
  {
    int x = e->so_error;
    e->so_error = 0;
    return err(x);
  }
  if(rnd(g_cfg->send_error, "udp_send_error"))
  {
    static const int es[] = {ENOBUFS, ENETUNREACH, EPERM};
    return err(es[fchoose(3)]);
  }
  addr from = e->local;
  if(from.ip == 0)
    from.ip = 0x7f000001;
  g_stats->udp_sent++;
  ssize_t n = data.size();
  if(parted(from.port, to.port) || rnd(g_cfg->udp_loss, "udp_loss"))
  {
    g_stats->udp_lost++;
    return n;
  }
  if(data.size() && rnd(g_cfg->udp_corrupt, "udp_corrupt"))
  {
    switch(fchoose(3))
    {
      case 0: data[fchoose(data.size())] ^= 1 << fchoose(8); break;
      case 1: data.resize(fchoose(data.size())); break;
      case 2: data[fchoose(data.size())] = (char)0xff; break;
    }
  }
  int copies = rnd(g_cfg->udp_dup, "udp_dup") ? 2 : 1;
  if(copies == 2)
    g_stats->udp_dup++;
  for(int i = 0; i < copies; i++)
  {
    uint64_t at = rt_now() + latency();
    if(g_cfg->udp_reorder && rnd(g_cfg->udp_reorder, "udp_reorder"))
    {
      at += uint64_t(1 + fchoose(20000)) * 1000;
      g_stats->udp_reordered++;
    }
    else if(i == 0)
    {
      at = std::max(at, e->last_at); // without that fault, order is kept
      e->last_at = at;
    }
    g_stats->in_flight++;
    std::weak_ptr<ep> src = e;
    hb_release(port_sync(to.port)); // what is received happens after it was sent
    schedule_event(at, [ip = to.ip, port = to.port, from, data, src] {
      g_stats->in_flight--;
      udp_deliver(ip, port, from, data, src);
    });
  }
  return n;
}
static ssize_t unixd_send(const ep_p& e, const addr& to, std::string data)
{
  auto it = g_paths->find(to.path);
  if(it == g_paths->end())
    return err(ENOENT);
  auto d = it->second.lock();
  if(!d || !d->open)
    return err(ECONNREFUSED);
  if(d->kind != K_UNIXD)
    return err(EPROTOTYPE);
  if(d->qbytes + data.size() > 212992)
    return err(e->nonblock ? EAGAIN : ENOBUFS);
  d->qbytes += data.size();
  hb_release(d.get());
  d->q.push_back({data, e->local});
  changed();
  return data.size();
}

// ---- streams
static void do_rst(const ep_p& e, int why = ECONNRESET)
{
  if(!e || e->rst)
    return;
  e->rst = true;
  e->st = ep::DEAD;
  e->so_error = why;
  e->rx.clear();
  changed();
}
static void stream_event(const ep_p& to, uint16_t pa, uint16_t pb, std::function<void(const ep_p&)> f, bool fast = false)
{
  uint64_t at = rt_now() + (fast ? 1000 : latency());
  if(at <= to->last_at)
    at = to->last_at + 1;
  to->last_at = at;
  g_stats->in_flight++;
  std::weak_ptr<ep> w = to;
  struct retry
  {
    std::weak_ptr<ep> w;
    uint16_t pa, pb;
    std::function<void(const ep_p&)> f;
    void operator()() const
    {
      if(parted(pa, pb))
      {
        auto self = *this;
        if(auto e = w.lock())
          e->last_at = std::max(e->last_at, rt_now() + 1000000);
        schedule_event(rt_now() + 1000000, self);
        return;
      }
      g_stats->in_flight--;
      if(auto e = w.lock())
        f(e);
      changed();
    }
  };
  schedule_event(at, retry{w, pa, pb, std::move(f)});
}
static void reset_pair(const ep_p& a)
{
  auto b = a->peer.lock();
  g_stats->tcp_resets++;
  do_rst(a);
  if(b)
    do_rst(b);
}
unsigned open_sockets()
{
  rt_scope s;
  unsigned n = 0;
  for(auto& [fd, e] : *g_fds)
    n += e->kind != K_EVENT && e->kind != K_PIPE;
  return n;
}
void log_sockets()
{
  std::vector<std::string> v;
  {
    rt_scope s;
    for(auto& [fd, e] : *g_fds)
      if(e->kind != K_EVENT && e->kind != K_PIPE)
      {
        char b[200];
        snprintf(b, sizeof b, "fd %d kind %d state %d %d->%d rx %zu eof %d rst %d inflight %zu peer %s backlog %zu", fd, (int)e->kind, (int)e->st,
                 e->local.port, e->remote.port, e->rx.size(), e->rx_eof, e->rst, e->inflight,
                 e->peer.expired() ? "none" : e->peer_gone ? "gone" : "there", e->backlog.size());
        v.push_back(b);
      }
  }
  for(auto& l : v)
    log("%s", l.c_str());
}
void reset_connections(int port)
{
  rt_scope s;
  std::vector<ep_p> v;
  each_ep([&](const ep_p& e) {
    if(e->kind == K_TCP && e->st == ep::CONN && (e->local.port == port || e->remote.port == port))
      v.push_back(e);
  });
  for(auto& e : v)
    reset_pair(e);
  if(!v.empty())
    fault_fired("tcp_reset");
}
static void push_segment(const ep_p& from, const ep_p& to, std::string d)
{
  to->inflight += d.size();
  g_stats->tcp_bytes += d.size();
  std::weak_ptr<ep> wf = from;
  size_t n = d.size();
  hb_release(to.get());
  stream_event(
      to, from->local.port, from->remote.port,
      [d = std::move(d), wf, n](const ep_p& e) {
        e->inflight -= n;
        if(e->rst)
          return;
        if(!e->open || e->rd_shut)
        {
          if(!e->open)
            if(auto f = wf.lock())
              do_rst(f);
          return;
        }
        e->rx += d;
      },
      from->kind != K_TCP);
}
static ssize_t stream_send(const ep_p& e, std::string data, int flags)
{
  bool nb = e->nonblock || (flags & MSG_DONTWAIT);
  size_t done = 0;
  for(;;)
  {
    if(e->tx_shut)
      return done ? done : err(EPIPE);
    if(e->rst)
    {
      if(done)
        return done;
      int x = e->so_error ? e->so_error : EPIPE;
      e->so_error = 0;
      return err(x);
    }
    if(e->st == ep::CONNECTING && !nb)
    {
      block_on(&g_chan, "send", NEVER);
      continue;
    }
    if(e->st != ep::CONN)
      return err(e->st == ep::CONNECTING ? EAGAIN : (e->kind == K_TCP ? EPIPE : ENOTCONN));
    auto p = e->peer.lock();
    if(!p)
      return done ? done : err(EPIPE);
    if(data.empty())
      return 0;
    if(e->kind == K_TCP && rnd(g_cfg->tcp_reset, "tcp_reset"))
    {
      reset_pair(e);
      continue;
    }
    if(e->kind != K_TCP && !p->open)
      return done ? done : err(EPIPE);
    size_t used = p->rx.size() + p->inflight;
    size_t space = used >= g_cfg->tcp_buffer ? 0 : g_cfg->tcp_buffer - used;
    if(space == 0)
    {
      if(nb)
        return done ? done : err(EAGAIN);
      block_on(&g_chan, "send", NEVER);
      continue;
    }
    size_t n = std::min(space, data.size() - done);
    if(nb && n > 1 && rnd(g_cfg->short_write, "short_write"))
      n = 1 + fchoose(n - 1);
    // segmentation
    size_t k = 0;
    while(k < n)
    {
      size_t m = n - k;
      if(m > 1 && rnd(g_cfg->segment, "tcp_segment"))
        m = 1 + fchoose(std::min<size_t>(m - 1, fchoose(2) ? 8 : m - 1));
      push_segment(e, p, data.substr(done + k, m));
      k += m;
    }
    done += n;
    if(done == data.size() || nb)
      return done;
  }
}
static ssize_t stream_recv(const ep_p& e, void* b, size_t n, int flags)
{
  bool nb = e->nonblock || (flags & MSG_DONTWAIT);
  for(;;)
  {
    if(!e->rx.empty())
    {
      size_t m = std::min(n, e->rx.size());
      if(m > 1 && e->kind != K_PIPE && rnd(g_cfg->short_read, "short_read"))
        m = 1 + fchoose(m - 1);
      memcpy(b, e->rx.data(), m);
      hb_acquire(e.get());
      if(!(flags & MSG_PEEK))
      {
        e->rx.erase(0, m);
        changed();
      }
      return m;
    }
    if(n == 0)
      return 0;
    if(e->rst)
    {
      int x = e->so_error;
      e->so_error = 0;
      if(x)
        return err(x);
      return 0;
    }
    if(e->rx_eof || e->rd_shut)
      return 0;
    if(e->st == ep::NONE || e->st == ep::LISTEN)
      return err(e->kind == K_UNIX ? EINVAL : ENOTCONN);
    if(nb)
      return err(EAGAIN);
    block_on(&g_chan, "recv", NEVER);
    if(e->refs == 0)
      return err(EBADF);
  }
}
static ssize_t dgram_recv(const ep_p& e, void* b, size_t n, int flags, sockaddr* sa, socklen_t* sl)
{
  bool nb = e->nonblock || (flags & MSG_DONTWAIT);
  for(;;)
  {
    if(e->so_error)
    {
      int x = e->so_error;
      e->so_error = 0;
      return err(x);
    }
    if(!e->q.empty())
    {
      dgram d = e->q.front();
      hb_acquire(e->kind == K_UDP ? port_sync(e->local.port) : e.get());
      if(!(flags & MSG_PEEK))
      {
        e->qbytes -= d.data.size();
        e->q.pop_front();
      }
      size_t m = std::min(n, d.data.size());
      memcpy(b, d.data.data(), m);
      to_sa(d.from, e->fam, sa, sl);
      return m;
    }
    if(e->rd_shut)
      return 0;
    if(nb)
      return err(EAGAIN);
    block_on(&g_chan, "recv", NEVER);
    if(e->refs == 0)
      return err(EBADF);
  }
}
static void close_ep(const ep_p& e)
{
  if(--e->refs > 0)
    return;
  e->open = false;
  if(e->st == ep::LISTEN)
  {
    for(auto& c : e->backlog)
    {
      c->open = false;
      if(auto p = c->peer.lock())
        do_rst(p);
    }
    e->backlog.clear();
  }
  else if(e->kind == K_TCP || e->kind == K_UNIX || e->kind == K_PIPE)
  {
    if(auto p = e->peer.lock(); p && e->st == ep::CONN)
    {
      bool rst = e->kind == K_TCP && (!e->rx.empty() || e->linger0);
      if(e->kind == K_TCP && !rst && !e->rx_eof)
        (*g_timewait)[e->local.port] = now_ns() + 60000000000ull;
      std::weak_ptr<ep> keep = e;
      stream_event(
          p, e->local.port, e->remote.port,
          [rst, keep](const ep_p& q) {
            if(rst)
              do_rst(q);
            else
              q->rx_eof = true;
          },
          e->kind != K_TCP);
    }
    e->st = ep::DEAD;
  }
  changed();
}

// ---- readiness
static bool readable(const ep_p& e)
{
  switch(e->kind)
  {
    case K_UDP:
    case K_UNIXD: return !e->q.empty() || e->so_error || e->rd_shut;
    case K_EVENT: return e->counter > 0;
    default:
      if(e->st == ep::LISTEN)
        return !e->backlog.empty();
      if(e->st == ep::NONE)
        return e->kind == K_TCP; // HUP
      return !e->rx.empty() || e->rx_eof || e->rst || e->rd_shut;
  }
}
static bool writable(const ep_p& e)
{
  switch(e->kind)
  {
    case K_UDP:
    case K_UNIXD:
    case K_EVENT: return true;
    default:
      if(e->st == ep::LISTEN || e->st == ep::CONNECTING)
        return false;
      if(e->st != ep::CONN || e->rst || e->tx_shut)
        return true;
      if(auto p = e->peer.lock())
        return p->rx.size() + p->inflight < g_cfg->tcp_buffer;
      return true;
  }
}
static ep_p find_listener(kind_t k, const addr& a)
{
  ep_p r;
  if(k == K_UNIX)
  {
    auto it = g_paths->find(a.path);
    if(it != g_paths->end())
      if(auto e = it->second.lock(); e && e->open && e->kind == K_UNIX && e->st == ep::LISTEN)
        r = e;
    return r;
  }
  each_ep([&](const ep_p& e) {
    if(e->kind == K_TCP && e->st == ep::LISTEN && e->local.port == a.port)
      r = e;
  });
  return r;
}
// server half of a new connection
static ep_p make_server_end(const ep_p& l, const ep_p& c)
{
  auto s = make(l->kind, l->fam);
  s->local = l->local;
  if(l->kind == K_TCP)
    s->local.ip = 0x7f000001;
  s->remote = c->local;
  if(l->kind == K_TCP)
    s->remote.ip = 0x7f000001;
  s->bound = true;
  s->reuse = l->reuse;
  s->st = ep::CONN;
  s->peer = c;
  c->peer = s;
  l->backlog.push_back(s);
  return s;
}
}
using namespace sim;

struct ns
{
  rt_scope r;
};
#define PASS(fd) (!in_sim() || !is_sim_fd(fd))

extern "C" {
int socket(int fam, int type, int proto)
{
  if(!in_sim())
    return REAL(socket)(fam, type, proto);
  ns _;
  point_sync();
  int t = type & 0xf;
  kind_t k;
  if(fam == AF_INET || fam == AF_INET6)
    k = t == SOCK_DGRAM ? K_UDP : K_TCP;
  else if(fam == AF_UNIX)
    k = t == SOCK_DGRAM ? K_UNIXD : K_UNIX;
  else
    return err(EAFNOSUPPORT);
  auto e = make(k, fam);
  e->nonblock = type & SOCK_NONBLOCK;
  e->local.fam = fam;
  return install(e);
}
int socketpair(int fam, int type, int, int sv[2])
{
  ns _;
  point_sync();
  auto a = make(K_UNIX, AF_UNIX), b = make(K_UNIX, AF_UNIX);
  a->peer = b;
  b->peer = a;
  a->st = b->st = ep::CONN;
  a->nonblock = b->nonblock = type & SOCK_NONBLOCK;
  sv[0] = install(a);
  sv[1] = install(b);
  return 0;
}
int bind(int fd, const sockaddr* sa, socklen_t len)
{
  if(PASS(fd))
    return REAL(bind)(fd, sa, len);
  ns _;
  point_sync();
  auto e = get(fd);
  if(!e)
    return err(EBADF);
  addr a;
  if(!from_sa(sa, len, a))
    return err(EINVAL);
  if(e->bound)
    return err(EINVAL);
  if(e->kind == K_UNIX || e->kind == K_UNIXD)
  {
    if(g_paths->count(a.path))
      return err(EADDRINUSE);
    (*g_paths)[a.path] = e;
    e->local = a;
    e->bound = true;
    return 0;
  }
  if(a.port == 0)
    a.port = fresh_port();
  else
  {
    bool clash = false;
    each_ep([&](const ep_p& o) {
      if(o == e || o->kind != e->kind || !o->bound || o->local.port != a.port)
        return;
      if(e->kind == K_UDP)
        clash |= !(o->reuse && e->reuse);
      else
        clash |= o->st == ep::LISTEN || !(o->reuse && e->reuse);
    });
    if(auto w = g_timewait->find(a.port); e->kind == K_TCP && !e->reuse && w != g_timewait->end() && w->second > now_ns())
      clash = true;
    if(clash)
      return err(EADDRINUSE);
  }
  e->local = a;
  e->bound = true;
  return 0;
}
int listen(int fd, int)
{
  if(PASS(fd))
    return REAL(listen)(fd, 0);
  ns _;
  point_sync();
  auto e = get(fd);
  if(!e)
    return err(EBADF);
  if(e->kind != K_TCP && e->kind != K_UNIX)
    return err(EOPNOTSUPP);
  auto_bind(e);
  if(find_listener(e->kind, e->local) && find_listener(e->kind, e->local) != e)
    return err(EADDRINUSE);
  e->st = ep::LISTEN;
  return 0;
}
int accept4(int fd, sockaddr* sa, socklen_t* sl, int flags)
{
  if(PASS(fd))
    return REAL(accept4)(fd, sa, sl, flags);
  ns _;
  point_sync();
  for(;;)
  {
    auto e = get(fd);
    if(!e)
      return err(EBADF);
    if(e->st != ep::LISTEN)
      return err(EINVAL);
    if(!e->backlog.empty())
    {
      // too many files open: the connection goes on waiting
      if(rnd(g_cfg->accept_again, "accept_again"))
        return err(EMFILE);
      if(rnd(g_cfg->accept_error, "accept_error"))
      {
        auto c = e->backlog.front();
        e->backlog.pop_front();
        c->open = false;
        reset_pair(c);
        return err(ECONNABORTED);
      }
      auto c = e->backlog.front();
      e->backlog.pop_front();
      int r = install(c);
      if(r < 0)
        return -1;
      c->nonblock = flags & SOCK_NONBLOCK;
      to_sa(c->remote, c->fam, sa, sl);
      hb_acquire(c.get());
      return r;
    }
    if(e->nonblock)
      return err(EAGAIN);
    block_on(&g_chan, "accept", NEVER);
  }
}
int accept(int fd, sockaddr* sa, socklen_t* sl)
{
  if(PASS(fd))
    return REAL(accept)(fd, sa, sl);
  return accept4(fd, sa, sl, 0);
}
int connect(int fd, const sockaddr* sa, socklen_t len)
{
  if(PASS(fd))
    return REAL(connect)(fd, sa, len);
  ns _;
  point_sync();
  auto e = get(fd);
  if(!e)
    return err(EBADF);
  addr a;
  if(!from_sa(sa, len, a))
  {
    if(sa && sa->sa_family == AF_UNSPEC)
    {
      e->dconn = false;
      return 0;
    }
    return err(EINVAL);
  }
  if(e->kind == K_UDP)
  {
    auto_bind(e);
    e->dconn = true;
    e->remote = a;
    if(!e->remote.ip)
      e->remote.ip = 0x7f000001;
    return 0;
  }
  if(e->kind == K_UNIXD)
  {
    if(!g_paths->count(a.path))
      return err(ENOENT);
    auto d = (*g_paths)[a.path].lock();
    if(!d || !d->open)
      return err(ECONNREFUSED);
    e->dconn = true;
    e->remote = a;
    return 0;
  }
  if(e->st == ep::CONN)
    return err(EISCONN);
  if(e->st == ep::CONNECTING)
    return err(EALREADY);
  if(e->st == ep::LISTEN)
    return err(EISCONN);
  if(e->kind == K_UNIX)
  {
    if(!g_paths->count(a.path))
      return err(ENOENT);
    auto l = find_listener(K_UNIX, a);
    if(!l)
      return err(ECONNREFUSED);
    e->remote = a;
    e->st = ep::CONN;
    auto s = make_server_end(l, e);
    hb_release(s.get());
    changed();
    return 0;
  }
  auto_bind(e);
  e->remote = a;
  if(!e->remote.ip)
    e->remote.ip = 0x7f000001;
  e->st = ep::CONNECTING;
  e->rst = false;
  e->so_error = 0;
  bool refuse = rnd(g_cfg->refuse, "connect_refused");
  stream_event(e, e->local.port, a.port, [a, refuse](const ep_p& c) {
    if(!c->open)
      return;
    auto l = find_listener(K_TCP, a);
    if(!l || refuse)
    {
      c->st = ep::NONE;
      c->so_error = ECONNREFUSED;
      c->rst = true;
      return;
    }
    c->st = ep::CONN;
    c->local.ip = 0x7f000001;
    make_server_end(l, c);
  });
  if(e->nonblock)
    return err(EINPROGRESS);
  while(e->st == ep::CONNECTING)
    block_on(&g_chan, "connect", NEVER);
  if(e->st == ep::CONN)
    return 0;
  int x = e->so_error ? e->so_error : ECONNREFUSED;
  e->so_error = 0;
  e->rst = false;
  return err(x);
}
int shutdown(int fd, int how)
{
  if(PASS(fd))
    return REAL(shutdown)(fd, how);
  ns _;
  point_sync();
  auto e = get(fd);
  if(!e)
    return err(EBADF);
  if(e->kind == K_UDP || e->kind == K_UNIXD)
  {
    if(how == SHUT_RD || how == SHUT_RDWR)
      e->rd_shut = true;
    changed();
    return e->dconn ? 0 : err(ENOTCONN);
  }
  if(e->st != ep::CONN)
    return err(ENOTCONN);
  if(how == SHUT_RD || how == SHUT_RDWR)
    e->rd_shut = true;
  if((how == SHUT_WR || how == SHUT_RDWR) && !e->tx_shut)
  {
    e->tx_shut = true;
    if(auto p = e->peer.lock())
      stream_event(p, e->local.port, e->remote.port, [](const ep_p& q) { q->rx_eof = true; }, e->kind != K_TCP);
  }
  changed();
  return 0;
}
int close(int fd)
{
  if(PASS(fd))
    return sim_fs_close(fd);
  ns _;
  point_sync();
  auto it = g_fds->find(fd);
  if(it == g_fds->end())
    return err(EBADF);
  auto e = it->second;
  g_fds->erase(it);
  close_ep(e);
  return 0;
}
static ssize_t do_send(int fd, const void* b, size_t n, int flags, const sockaddr* sa, socklen_t sl)
{
  point_sync();
  auto e = get(fd);
  if(!e)
    return err(EBADF);
  std::string data((const char*)b, n);
  switch(e->kind)
  {
    case K_EVENT:
    {
      uint64_t v;
      if(n < 8)
        return err(EINVAL);
      memcpy(&v, b, 8);
      e->counter += v;
      hb_release(e.get());
      changed();
      return 8;
    }
    case K_UDP:
    case K_UNIXD:
    {
      addr to = e->remote;
      if(sa)
      {
        if(!from_sa(sa, sl, to))
          return err(EINVAL);
      }
      else if(!e->dconn)
        return err(EDESTADDRREQ);
      return e->kind == K_UDP ? udp_send(e, to, std::move(data)) : unixd_send(e, to, std::move(data));
    }
    default: return stream_send(e, std::move(data), flags);
  }
}
static ssize_t do_recv(int fd, void* b, size_t n, int flags, sockaddr* sa, socklen_t* sl)
{
  point_sync();
  auto e = get(fd);
  if(!e)
    return err(EBADF);
  switch(e->kind)
  {
    case K_EVENT:
      if(n < 8)
        return err(EINVAL);
      while(e->counter == 0)
      {
        if(e->nonblock)
          return err(EAGAIN);
        block_on(&g_chan, "eventfd", NEVER);
      }
      memcpy(b, &e->counter, 8);
      e->counter = 0;
      hb_acquire(e.get());
      return 8;
    case K_UDP:
    case K_UNIXD: return dgram_recv(e, b, n, flags, sa, sl);
    default:
      if(sl)
        *sl = 0;
      return stream_recv(e, b, n, flags);
  }
}
#define CHECK_R(b, n) __tsan_read_range((void*)(b), n)
#define CHECK_W(b, n) __tsan_write_range((void*)(b), n)
ssize_t send(int fd, const void* b, size_t n, int flags)
{
  if(PASS(fd))
    return REAL(send)(fd, b, n, flags);
  CHECK_R(b, n);
  ns _;
  return do_send(fd, b, n, flags, nullptr, 0);
}
ssize_t sendto(int fd, const void* b, size_t n, int flags, const sockaddr* sa, socklen_t sl)
{
  if(PASS(fd))
    return REAL(sendto)(fd, b, n, flags, sa, sl);
  CHECK_R(b, n);
  ns _;
  return do_send(fd, b, n, flags, sa, sl);
}
static ssize_t gather(int fd, const iovec* v, size_t k, int flags, const sockaddr* sa, socklen_t sl)
{
  for(size_t i = 0; i < k; i++)
    CHECK_R(v[i].iov_base, v[i].iov_len);
  ns _;
  std::string d;
  for(size_t i = 0; i < k; i++)
    d.append((const char*)v[i].iov_base, v[i].iov_len);
  return do_send(fd, d.data(), d.size(), flags, sa, sl);
}
static ssize_t scatter(int fd, const iovec* v, size_t k, int flags, sockaddr* sa, socklen_t* sl)
{
  ssize_t r;
  {
    ns _;
    size_t tot = 0;
    for(size_t i = 0; i < k; i++)
      tot += v[i].iov_len;
    std::string d(tot, 0);
    r = do_recv(fd, d.data(), tot, flags, sa, sl);
    size_t o = 0;
    for(size_t i = 0; r > 0 && i < k && o < (size_t)r; i++)
    {
      size_t m = std::min<size_t>(v[i].iov_len, r - o);
      memcpy(v[i].iov_base, d.data() + o, m);
      o += m;
    }
  }
  size_t o = 0;
  int e = errno;
  for(size_t i = 0; r > 0 && i < k && o < (size_t)r; i++)
  {
    size_t m = std::min<size_t>(v[i].iov_len, r - o);
    CHECK_W(v[i].iov_base, m);
    o += m;
  }
  errno = e;
  return r;
}
ssize_t sendmsg(int fd, const msghdr* m, int flags)
{
  if(PASS(fd))
    return REAL(sendmsg)(fd, m, flags);
  return gather(fd, m->msg_iov, m->msg_iovlen, flags, (const sockaddr*)m->msg_name, m->msg_namelen);
}
ssize_t recv(int fd, void* b, size_t n, int flags)
{
  if(PASS(fd))
    return REAL(recv)(fd, b, n, flags);
  ssize_t r;
  {
    ns _;
    r = do_recv(fd, b, n, flags, nullptr, nullptr);
  }
  if(r > 0)
    CHECK_W(b, r);
  return r;
}
ssize_t recvfrom(int fd, void* b, size_t n, int flags, sockaddr* sa, socklen_t* sl)
{
  if(PASS(fd))
    return REAL(recvfrom)(fd, b, n, flags, sa, sl);
  ssize_t r;
  {
    ns _;
    r = do_recv(fd, b, n, flags, sa, sl);
  }
  if(r > 0)
    CHECK_W(b, r);
  return r;
}
ssize_t recvmsg(int fd, msghdr* m, int flags)
{
  if(PASS(fd))
    return REAL(recvmsg)(fd, m, flags);
  m->msg_flags = 0;
  return scatter(fd, m->msg_iov, m->msg_iovlen, flags, (sockaddr*)m->msg_name, m->msg_name ? &m->msg_namelen : nullptr);
}
ssize_t read(int fd, void* b, size_t n)
{
  if(PASS(fd))
    return sim_fs_read(fd, b, n);
  return recv(fd, b, n, 0);
}
ssize_t write(int fd, const void* b, size_t n)
{
  if(PASS(fd))
    return sim_fs_write(fd, b, n);
  return send(fd, b, n, MSG_NOSIGNAL);
}
ssize_t readv(int fd, const iovec* v, int k)
{
  if(PASS(fd))
    return REAL(readv)(fd, v, k);
  return scatter(fd, v, k, 0, nullptr, nullptr);
}
ssize_t writev(int fd, const iovec* v, int k)
{
  if(PASS(fd))
  {
    if(!in_sim())
      return REAL(writev)(fd, v, k);
    ssize_t t = 0;
    for(int i = 0; i < k; i++)
    {
      if(!v[i].iov_len)
        continue;
      ssize_t r = sim_fs_write(fd, v[i].iov_base, v[i].iov_len);
      if(r < 0)
        return t ? t : r;
      t += r;
      if((size_t)r < v[i].iov_len)
        break;
    }
    return t;
  }
  return gather(fd, v, k, MSG_NOSIGNAL, nullptr, 0);
}
int setsockopt(int fd, int level, int opt, const void* v, socklen_t n)
{
  if(PASS(fd))
    return REAL(setsockopt)(fd, level, opt, v, n);
  ns _;
  auto e = get(fd);
  if(!e)
    return err(EBADF);
  int x = n >= sizeof(int) ? *(const int*)v : 0;
  if(level == SOL_SOCKET)
  {
    if(opt == SO_REUSEADDR || opt == SO_REUSEPORT)
      e->reuse = x;
    else if(opt == SO_BROADCAST)
      e->broadcast = x;
    else if(opt == SO_LINGER && n >= sizeof(linger))
    {
      auto l = (const linger*)v;
      e->linger0 = l->l_onoff && l->l_linger == 0;
    }
  }
  return 0;
}
int getsockopt(int fd, int level, int opt, void* v, socklen_t* n)
{
  if(PASS(fd))
    return REAL(getsockopt)(fd, level, opt, v, n);
  ns _;
  auto e = get(fd);
  if(!e)
    return err(EBADF);
  int x = 0;
  if(level == SOL_SOCKET)
  {
    if(opt == SO_ERROR)
    {
      x = e->so_error;
      e->so_error = 0;
    }
    else if(opt == SO_TYPE)
      x = (e->kind == K_UDP || e->kind == K_UNIXD) ? SOCK_DGRAM : SOCK_STREAM;
    else if(opt == SO_REUSEADDR)
      x = e->reuse;
    else if(opt == SO_BROADCAST)
      x = e->broadcast;
    else if(opt == SO_RCVBUF || opt == SO_SNDBUF)
      x = 212992;
    else if(opt == SO_ACCEPTCONN)
      x = e->st == ep::LISTEN;
  }
  if(v && n && *n >= sizeof(int))
  {
    memcpy(v, &x, sizeof x);
    *n = sizeof x;
  }
  return 0;
}
int getsockname(int fd, sockaddr* sa, socklen_t* sl)
{
  if(PASS(fd))
    return REAL(getsockname)(fd, sa, sl);
  ns _;
  auto e = get(fd);
  if(!e)
    return err(EBADF);
  to_sa(e->local, e->fam, sa, sl);
  return 0;
}
int getpeername(int fd, sockaddr* sa, socklen_t* sl)
{
  if(PASS(fd))
    return REAL(getpeername)(fd, sa, sl);
  ns _;
  auto e = get(fd);
  if(!e)
    return err(EBADF);
  bool ok = (e->kind == K_UDP || e->kind == K_UNIXD) ? e->dconn : (e->st == ep::CONN);
  if(!ok)
    return err(ENOTCONN);
  to_sa(e->remote, e->fam, sa, sl);
  return 0;
}
int fcntl(int fd, int cmd, ...)
{
  va_list ap;
  va_start(ap, cmd);
  long arg = va_arg(ap, long);
  va_end(ap);
  if(PASS(fd))
    return REAL(fcntl)(fd, cmd, arg);
  ns _;
  auto e = get(fd);
  if(!e)
    return err(EBADF);
  switch(cmd)
  {
    case F_GETFL: return O_RDWR | (e->nonblock ? O_NONBLOCK : 0);
    case F_SETFL: e->nonblock = arg & O_NONBLOCK; return 0;
    case F_DUPFD:
    case F_DUPFD_CLOEXEC: return install(e);
    default: return 0;
  }
}
int fcntl64(int fd, int cmd, ...)
{
  va_list ap;
  va_start(ap, cmd);
  long arg = va_arg(ap, long);
  va_end(ap);
  return fcntl(fd, cmd, arg);
}
int dup(int fd)
{
  if(PASS(fd))
    return REAL(dup)(fd);
  ns _;
  auto e = get(fd);
  return e ? install(e) : err(EBADF);
}
int ioctl(int fd, unsigned long req, ...) noexcept
{
  va_list ap;
  va_start(ap, req);
  void* arg = va_arg(ap, void*);
  va_end(ap);
  if(PASS(fd))
    return ((int (*)(int, unsigned long, ...))real_dlsym("ioctl"))(fd, req, arg);
  ns _;
  auto e = get(fd);
  if(!e)
    return err(EBADF);
  if(req == FIONBIO)
    e->nonblock = *(int*)arg;
  else if(req == FIONREAD)
    *(int*)arg = (e->kind == K_UDP || e->kind == K_UNIXD) ? (e->q.empty() ? 0 : e->q.front().data.size())
                                                          : e->rx.size();
  else
    return err(ENOTTY);
  return 0;
}
int poll(pollfd* p, nfds_t n, int timeout)
{
  if(!in_sim())
    return REAL(poll)(p, n, timeout);
  ns _;
  point_sync();
  uint64_t dl = timeout < 0 ? NEVER : rt_now() + uint64_t(timeout) * 1000000;
  for(;;)
  {
    int r = 0;
    for(nfds_t i = 0; i < n; i++)
    {
      p[i].revents = 0;
      if(p[i].fd < 0)
        continue;
      auto e = get(p[i].fd);
      if(!e)
      {
        p[i].revents = POLLNVAL;
        r++;
        continue;
      }
      short ev = 0;
      if(readable(e))
        ev |= POLLIN;
      if(writable(e))
        ev |= POLLOUT;
      ev &= p[i].events;
      if(e->so_error || e->rst)
        ev |= POLLERR;
      if(e->rst || (e->rx_eof && e->tx_shut))
        ev |= POLLHUP;
      p[i].revents = ev;
      if(ev)
      {
        hb_acquire(e.get());
        r++;
      }
    }
    if(r)
      return r;
    if(timeout == 0)
      return 0;
    if(!block_on(&g_chan, "poll", dl))
      return 0;
  }
}
int select(int n, fd_set* r, fd_set* w, fd_set* x, timeval* tv)
{
  if(!in_sim())
    return REAL(select)(n, r, w, x, tv);
  ns _;
  point_sync();
  uint64_t dl = NEVER;
  if(tv)
    dl = rt_now() + uint64_t(tv->tv_sec) * 1000000000ull + uint64_t(tv->tv_usec) * 1000;
  fd_set ri, wi;
  FD_ZERO(&ri);
  FD_ZERO(&wi);
  if(r)
    ri = *r;
  if(w)
    wi = *w;
  for(;;)
  {
    int k = 0;
    fd_set ro, wo;
    FD_ZERO(&ro);
    FD_ZERO(&wo);
    for(int i = 0; i < n; i++)
    {
      bool wr = FD_ISSET(i, &ri), ww = FD_ISSET(i, &wi);
      if(!wr && !ww)
        continue;
      auto e = get(i);
      if(!e)
        return err(EBADF);
      if(wr && readable(e))
      {
        FD_SET(i, &ro);
        hb_acquire(e.get());
        k++;
      }
      if(ww && writable(e))
      {
        FD_SET(i, &wo);
        k++;
      }
    }
    if(k || (tv && tv->tv_sec == 0 && tv->tv_usec == 0))
    {
      if(r)
        *r = ro;
      if(w)
        *w = wo;
      if(x)
        FD_ZERO(x);
      return k;
    }
    if(!block_on(&g_chan, "select", dl))
    {
      if(r)
        FD_ZERO(r);
      if(w)
        FD_ZERO(w);
      if(x)
        FD_ZERO(x);
      return 0;
    }
  }
}
int eventfd(unsigned v, int flags)
{
  if(!in_sim())
    return REAL(eventfd)(v, flags);
  ns _;
  auto e = make(K_EVENT, AF_UNSPEC);
  e->counter = v;
  e->nonblock = flags & EFD_NONBLOCK;
  return install(e);
}
int pipe2(int p[2], int flags)
{
  if(!in_sim())
    return REAL(pipe2)(p, flags);
  ns _;
  auto a = make(K_PIPE, AF_UNSPEC), b = make(K_PIPE, AF_UNSPEC);
  a->peer = b;
  b->peer = a;
  a->st = b->st = ep::CONN;
  a->nonblock = b->nonblock = flags & O_NONBLOCK;
  p[0] = install(a);
  p[1] = install(b);
  return 0;
}
int pipe(int p[2])
{
  if(!in_sim())
    return REAL(pipe)(p);
  return pipe2(p, 0);
}
int sim_unlink_socket(const char* path)
{
  ns _;
  auto it = g_paths->find(path);
  if(it == g_paths->end())
    return 0;
  g_paths->erase(it);
  return 1;
}
int getaddrinfo(const char* host, const char* serv, const addrinfo* hints, addrinfo** out)
{
  if(!in_sim())
    return REAL(getaddrinfo)(host, serv, hints, out);
  point_sync();
  {
    ns _;
    if(rnd(g_cfg->resolve_error, "resolve_error"))
      return EAI_AGAIN;
  }
  uint32_t ip = 0x7f000001;
  if(host && *host)
  {
    in_addr a;
    if(inet_aton(host, &a))
      ip = ntohl(a.s_addr);
    else if(!strcmp(host, "::1") || !strcmp(host, "::"))
      ip = 0x7f000001;
    else if(strcmp(host, "localhost") && strcmp(host, "simhost"))
      return EAI_NONAME;
  }
  else if(hints && (hints->ai_flags & AI_PASSIVE))
    ip = 0;
  int port = serv ? atoi(serv) : 0;
  if(serv && !port && !strcmp(serv, "http"))
    port = 80;
  struct both
  {
    addrinfo i;
    sockaddr_in a;
  };
  both* b = (both*)calloc(1, sizeof(both));
  b->i.ai_family = AF_INET;
  b->i.ai_socktype = hints && hints->ai_socktype ? hints->ai_socktype : SOCK_STREAM;
  b->i.ai_protocol = hints ? hints->ai_protocol : 0;
  b->i.ai_addrlen = sizeof(sockaddr_in);
  b->i.ai_addr = (sockaddr*)&b->a;
  b->a.sin_family = AF_INET;
  b->a.sin_port = htons(port);
  b->a.sin_addr.s_addr = htonl(ip);
  *out = &b->i;
  return 0;
}
void freeaddrinfo(addrinfo* a) noexcept
{
  if(!in_sim())
    return REAL(freeaddrinfo)(a);
  free(a);
}
int gethostname(char* b, size_t n) noexcept
{
  snprintf(b, n, "simhost");
  return 0;
}
}
