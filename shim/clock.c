/* LD_PRELOAD: a virtual system clock.
   RV_CLOCK=file      int64 nanoseconds since the epoch, read (mmap) at every query
   RV_CLOCK_NSPB=x    additionally, every byte read from fd 0 advances the clock by x ns
   The real-time clock only; monotonic clocks are untouched. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <stdint.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

static volatile int64_t* base;
static double nspb;
static int64_t consumed;

__attribute__((constructor)) static void init(void) {
  const char* f = getenv("RV_CLOCK");
  const char* n = getenv("RV_CLOCK_NSPB");
  if (n)
    nspb = atof(n);
  if (!f)
    return;
  int fd = open(f, O_RDWR);
  if (fd < 0)
    return;
  void* p = mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  close(fd);
  if (p != MAP_FAILED)
    base = p;
}

static int64_t now(void) {
  base[1]++; /* number of queries, for the evidence */
  return base[0] + (int64_t)(nspb * consumed);
}

int clock_gettime(clockid_t id, struct timespec* ts) {
  if (base && (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE)) {
    int64_t t   = now();
    ts->tv_sec  = t / 1000000000;
    ts->tv_nsec = t % 1000000000;
    return 0;
  }
  return (int)syscall(SYS_clock_gettime, id, ts);
}

int gettimeofday(struct timeval* tv, void* tz) {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  tv->tv_sec  = ts.tv_sec;
  tv->tv_usec = ts.tv_nsec / 1000;
  return 0;
}

time_t time(time_t* out) {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  if (out)
    *out = ts.tv_sec;
  return ts.tv_sec;
}

int timespec_get(struct timespec* ts, int b) {
  clock_gettime(CLOCK_REALTIME, ts);
  return b;
}

ssize_t read(int fd, void* buf, size_t n) {
  ssize_t r = syscall(SYS_read, fd, buf, n);
  if (fd == 0 && r > 0 && base)
    consumed += r;
  return r;
}
