// Replacement of the OpenMP runtime entry points used by the Kokkos OpenMP back end (included by hx.cpp when HX_GOMP is
// defined). HX_OMP selects how a parallel region is executed:
//   seq : HX_VNT virtual threads run one after the other, in the order given by HX_OMPSEED (0 ascending, 1 descending,
//         else a new random order for every region) - the loop iterations are executed in a different order
//   pt  : HX_VNT POSIX threads, created and joined for the region (the happens-before relation of the region is exact,
//         which is what a race detector needs), started in random order
// Nothing of the real runtime is used.
#include <pthread.h>
#include <sched.h>
#include <atomic>
#include <cstdlib>
#include <cstring>
#include <vector>
#include <algorithm>
#include <random>

namespace vomp
{
static thread_local int  tid = 0;
static thread_local int  level = 0;
static thread_local int  width = 1;
static int               maxThreads = -1;
static bool              pt = false;
static unsigned long     seed = 0;
static std::mt19937_64 * rng = nullptr;
static long              regions = 0, chunks = 0;

static void
setup()
{
  if (maxThreads > 0)
    return;
  const char * m = getenv("HX_OMP");
  const char * n = getenv("HX_VNT");
  const char * s = getenv("HX_OMPSEED");
  maxThreads = n ? std::max(1, atoi(n)) : 1;
  pt = m && !strcmp(m, "pt");
  seed = s ? strtoul(s, nullptr, 10) : 0;
  rng = new std::mt19937_64(seed);
}

struct Loop // work sharing of a dynamically scheduled loop
{
  std::atomic<long> next;
  long              end, incr, chunk;
};
static Loop loop;

struct Job
{
  void (*fn)(void *);
  void * data;
  int    tid, n;
};

static void *
start(void * p)
{
  Job * j = (Job *)p;
  tid = j->tid;
  level = 1;
  width = j->n;
  Kokkos::Impl::t_openmp_hardware_id = j->tid; // set once per pool thread by the real back end
  j->fn(j->data);
  return nullptr;
}

static void
region(void (*fn)(void *), void * data, unsigned nt)
{
  setup();
  if (level > 0) // nested: executed by the caller alone
  {
    int t = tid, w = width;
    tid = 0;
    width = 1;
    ++level;
    fn(data);
    --level;
    tid = t;
    width = w;
    return;
  }
  int n = nt ? (int)nt : maxThreads;
  ++regions;
  chunks += n;
  std::vector<int> order(n);
  for (int i = 0; i < n; ++i)
    order[i] = i;
  if (seed == 1)
    std::reverse(order.begin(), order.end());
  else if (seed > 1)
    std::shuffle(order.begin(), order.end(), *rng);
  if (!pt || n == 1)
  {
    for (int i : order)
    {
      tid = i;
      level = 1;
      width = n;
      Kokkos::Impl::t_openmp_hardware_id = i;
      fn(data);
    }
    Kokkos::Impl::t_openmp_hardware_id = 0;
    tid = 0;
    level = 0;
    width = 1;
    return;
  }
  std::vector<Job>       jobs(n);
  std::vector<pthread_t> th(n);
  for (int i : order)
  {
    jobs[i] = { fn, data, i, n };
    if (pthread_create(&th[i], nullptr, start, &jobs[i]))
      abort();
    if (seed > 1 && (*rng)() % 2)
      sched_yield();
  }
  for (int i : order)
    pthread_join(th[i], nullptr);
}
} // namespace vomp

extern "C" {
void
GOMP_parallel(void (*fn)(void *), void * data, unsigned nt, unsigned)
{
  vomp::region(fn, data, nt);
}
static void
vomp_loop(void (*fn)(void *), void * data, unsigned nt, long s, long e, long incr, long chunk)
{
  vomp::loop.next = s;
  vomp::loop.end = e;
  vomp::loop.incr = incr;
  vomp::loop.chunk = std::max(1L, chunk);
  vomp::region(fn, data, nt);
}
#define VOMP_LOOP(name)                                                                                                   \
  void name(void (*fn)(void *), void * d, unsigned nt, long s, long e, long i, long c, unsigned)                           \
  {                                                                                                                        \
    vomp_loop(fn, d, nt, s, e, i, c);                                                                                      \
  }
VOMP_LOOP(GOMP_parallel_loop_dynamic)
VOMP_LOOP(GOMP_parallel_loop_nonmonotonic_dynamic)
VOMP_LOOP(GOMP_parallel_loop_guided)
VOMP_LOOP(GOMP_parallel_loop_nonmonotonic_guided)
static bool
vomp_next(long * s, long * e)
{
  long n = vomp::loop.next.fetch_add(vomp::loop.incr * vomp::loop.chunk);
  if (vomp::loop.incr > 0 ? n >= vomp::loop.end : n <= vomp::loop.end)
    return false;
  *s = n;
  *e = n + vomp::loop.incr * vomp::loop.chunk;
  if (vomp::loop.incr > 0 ? *e > vomp::loop.end : *e < vomp::loop.end)
    *e = vomp::loop.end;
  return true;
}
bool GOMP_loop_dynamic_next(long * s, long * e) { return vomp_next(s, e); }
bool GOMP_loop_nonmonotonic_dynamic_next(long * s, long * e) { return vomp_next(s, e); }
bool GOMP_loop_guided_next(long * s, long * e) { return vomp_next(s, e); }
bool GOMP_loop_nonmonotonic_guided_next(long * s, long * e) { return vomp_next(s, e); }
void GOMP_loop_end_nowait(void) {}
int  omp_get_thread_num(void) { return vomp::tid; }
int  omp_get_num_threads(void) { return vomp::width; }
int  omp_get_level(void) { return vomp::level; }
int  omp_in_parallel(void) { return vomp::level > 0; }
int  omp_get_max_threads(void)
{
  vomp::setup();
  return vomp::maxThreads;
}
void omp_set_num_threads(int) {}
}
