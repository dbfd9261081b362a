// Disk faults. Files live in a real scratch directory; reads and writes below the
// configured root go through here and may be short, fail, or hit a full disk.
#include "rt.hpp"

#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <unistd.h>

#include <set>
#include <string>

extern "C" int sim_unlink_socket(const char* path);
namespace sim
{
static fs_config* g_fs;
static std::set<int>* g_tracked;
static long g_used;
fs_config& fs() { return *g_fs; }
void fs_reset()
{
  rt_scope s;
  g_fs = new fs_config;
  g_tracked = new std::set<int>;
  g_used = 0;
}
static bool frnd(unsigned permille, const char* what)
{
  if(!permille || !faults_any())
    return false;
  if(fchoose(1000) >= 1000 - permille)
  {
    fault_fired(what);
    return true;
  }
  return false;
}
static bool under_root(const char* p)
{
  return g_fs && !g_fs->root.empty() && p && !strncmp(p, g_fs->root.c_str(), g_fs->root.size());
}
void fs_track(int fd, const char* path)
{
  rt_scope s;
  if(fd >= 0 && under_root(path))
    g_tracked->insert(fd);
}
static bool open_fails(const char* path)
{
  rt_scope s;
  if(!under_root(path))
    return false;
  if(frnd(g_fs->open_fail, "open_fail"))
  {
    static const int es[] = {EACCES, EMFILE, EIO};
    errno = es[fchoose(3)];
    return true;
  }
  return false;
}
}
using namespace sim;
// what was written last does not arrive
static void lose_some(int fd)
{
  struct stat st;
  if(fstat(fd, &st) == 0 && st.st_size > 0 && fchoose(2) && ftruncate(fd, fchoose(st.st_size)) == 0)
    fault_fired("lost_write");
}
ssize_t sim_fs_read(int fd, void* b, size_t n)
{
  if(in_sim() && g_tracked->count(fd))
  {
    rt_scope s;
    point_sync();
    if(frnd(g_fs->eio_read, "read_eio"))
    {
      errno = EIO;
      return -1;
    }
    if(n > 1 && frnd(g_fs->short_read, "disk_short_read"))
      n = 1 + fchoose(n - 1);
  }
  return REAL(read)(fd, b, n);
}
ssize_t sim_fs_write(int fd, const void* b, size_t n)
{
  if(in_sim() && g_tracked->count(fd))
  {
    rt_scope s;
    point_sync();
    if(frnd(g_fs->enospc, "write_enospc"))
    {
      errno = ENOSPC;
      return -1;
    }
    if(g_fs->capacity >= 0)
    {
      if(g_used >= g_fs->capacity && n)
      {
        fault_fired("disk_full");
        errno = ENOSPC;
        return -1;
      }
      if(g_used + (long)n > g_fs->capacity)
        n = g_fs->capacity - g_used;
    }
    if(n > 1 && frnd(g_fs->short_write, "disk_short_write"))
      n = 1 + fchoose(n - 1);
    ssize_t r = REAL(write)(fd, b, n);
    if(r > 0)
      g_used += r;
    return r;
  }
  return REAL(write)(fd, b, n);
}
int sim_fs_close(int fd)
{
  bool bad = false;
  if(in_sim() && g_tracked->count(fd))
  {
    rt_scope s;
    point_sync();
    g_tracked->erase(fd);
    bad = frnd(g_fs->eio_close, "close_eio");
    if(bad)
      lose_some(fd);
  }
  int r = REAL(close)(fd);
  if(bad)
  {
    errno = EIO;
    return -1;
  }
  return r;
}
extern "C" {
int open(const char* p, int fl, ...)
{
  va_list ap;
  va_start(ap, fl);
  int mode = va_arg(ap, int);
  va_end(ap);
  if(in_sim() && open_fails(p))
    return -1;
  int fd = REAL(open)(p, fl, mode);
  if(in_sim())
    fs_track(fd, p);
  return fd;
}
int open64(const char* p, int fl, ...)
{
  va_list ap;
  va_start(ap, fl);
  int mode = va_arg(ap, int);
  va_end(ap);
  return open(p, fl, mode);
}
FILE* fopen(const char* p, const char* m)
{
  if(in_sim() && open_fails(p))
    return nullptr;
  FILE* f = REAL(fopen)(p, m);
  if(in_sim() && f)
    fs_track(fileno(f), p);
  return f;
}
int fclose(FILE* f)
{
  bool bad = false;
  if(in_sim() && f && g_tracked->count(fileno(f)))
  {
    rt_scope s;
    g_tracked->erase(fileno(f));
    bad = frnd(g_fs->eio_close, "close_eio");
    if(bad)
    {
      fflush(f);
      lose_some(fileno(f));
    }
  }
  int r = REAL(fclose)(f);
  if(bad)
  {
    errno = EIO;
    return EOF;
  }
  return r;
}
FILE* fopen64(const char* p, const char* m) { return fopen(p, m); }
int unlink(const char* p) noexcept
{
  if(in_sim())
  {
    if(sim_unlink_socket(p))
      return 0;
    if(!under_root(p))
    {
      errno = ENOENT;
      return -1;
    }
  }
  return REAL(unlink)(p);
}
int remove(const char* p) noexcept
{
  if(in_sim())
  {
    if(sim_unlink_socket(p))
      return 0;
    if(!under_root(p))
    {
      errno = ENOENT;
      return -1;
    }
  }
  return REAL(remove)(p);
}
}
