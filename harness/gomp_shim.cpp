// A small OpenMP runtime over pthreads, for ThreadSanitizer builds.
//
// GCC's libgomp is not instrumented, so ThreadSanitizer does not see its
// barriers and joins and reports races that are not there.  This runtime,
// compiled with the sanitizer, replaces it: every synchronisation of a
// parallel region goes through intercepted pthread calls, and the start of
// each thread is delayed by a random time to vary the schedule.
#include <gsl/gsl_interp.h>
#include <gsl/gsl_spline.h>
#include <pthread.h>
#include <unistd.h>

#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <ctime>
#include <vector>

extern "C" int omp_get_max_threads();

namespace {

struct Team {
  explicit Team(int n) : size(n) {
    pthread_barrier_init(&barrier, nullptr, n);
    pthread_mutex_init(&lock, nullptr);
  }
  ~Team() {
    pthread_barrier_destroy(&barrier);
    pthread_mutex_destroy(&lock);
  }
  int size;
  pthread_barrier_t barrier;
  pthread_mutex_t lock;
  // Worksharing loops, by the order in which threads meet them.
  struct Loop { long next, end, incr, chunk; };
  std::vector<Loop> loops;
  long singles = 0;
};

struct Self {
  Team* team = nullptr;
  int id = 0, size = 1, depth = 0;
  long nloop = 0, nsingle = 0;
  long next = 0, end = 0, incr = 1, chunk = 1;   // outside of a team
};

thread_local Self self;
std::atomic<long> regions{0}, threads{0};
int max_threads = 0;
pthread_mutex_t critical = PTHREAD_MUTEX_INITIALIZER;
pthread_mutex_t atomics = PTHREAD_MUTEX_INITIALIZER;

int initial_threads() {
  const char* s = std::getenv("OMP_NUM_THREADS");
  int n = s ? std::atoi(s) : 4;
  return n > 0 ? n : 4;
}

unsigned seed() {
  const char* s = std::getenv("SHIM_SEED");
  return s ? unsigned(std::atoi(s)) : 0u;
}

struct Start {
  void (*fn)(void*);
  void* data;
  Team* team;
  int id;
  unsigned delay;
  long nloop;
};

void run(const Start& s) {
  Self saved = self;
  self = Self();
  self.team = s.team;
  self.id = s.id;
  self.size = s.team->size;
  self.depth = saved.depth + 1;
  self.nloop = s.nloop;
  if (s.delay) usleep(s.delay);
  s.fn(s.data);
  self = saved;
}

void* entry(void* p) {
  run(*static_cast<Start*>(p));
  return nullptr;
}

void report() {
  const char* path = std::getenv("SHIM_REPORT");
  if (!path) return;
  if (std::FILE* f = std::fopen(path, "a")) {
    std::fprintf(f, "%ld %ld\n", regions.load(), threads.load());
    std::fclose(f);
  }
}

bool next_chunk(long* is, long* ie) {
  long next, end, incr, chunk;
  if (self.team) {
    pthread_mutex_lock(&self.team->lock);
    Team::Loop& l = self.team->loops[self.nloop - 1];
    next = l.next; end = l.end; incr = l.incr; chunk = l.chunk;
    l.next += incr * chunk;
    pthread_mutex_unlock(&self.team->lock);
  } else {
    next = self.next; end = self.end; incr = self.incr; chunk = self.chunk;
    self.next += incr * chunk;
  }
  if (incr > 0 ? next >= end : next <= end) return false;
  long stop = next + incr * chunk;
  if (incr > 0 ? stop > end : stop < end) stop = end;
  *is = next; *ie = stop;
  return true;
}

bool start_loop(long b, long e, long incr, long chunk, long* is, long* ie) {
  if (chunk < 1) chunk = 1;
  if (self.team) {
    pthread_mutex_lock(&self.team->lock);
    if (long(self.team->loops.size()) <= self.nloop)
      self.team->loops.push_back({b, e, incr, chunk});
    pthread_mutex_unlock(&self.team->lock);
  } else {
    self.next = b; self.end = e; self.incr = incr; self.chunk = chunk;
  }
  self.nloop++;
  return is ? next_chunk(is, ie) : true;
}

void parallel(void (*fn)(void*), void* data, unsigned n,
              const Team::Loop* loop) {
  if (self.depth > 0) n = 1;   // no nesting
  else if (n == 0) n = omp_get_max_threads();
  regions++;
  threads += n;
  Team team(n);
  if (loop) team.loops.push_back(*loop);
  static std::atomic<unsigned> calls{0};
  unsigned x = seed()*2654435761u + (calls++)*40503u + 1u;
  std::vector<Start> st(n);
  std::vector<pthread_t> th(n);
  for (unsigned i = 0; i < n; i++) {
    x = x*1664525u + 1013904223u;
    st[i] = {fn, data, &team, int(i), n > 1 ? (x >> 24) % 60u : 0u,
             loop ? 1L : 0L};
  }
  for (unsigned i = 1; i < n; i++)
    if (pthread_create(&th[i], nullptr, entry, &st[i])) std::abort();
  run(st[0]);
  for (unsigned i = 1; i < n; i++) pthread_join(th[i], nullptr);
}

}  // namespace

extern "C" {

int omp_get_max_threads() {
  if (!max_threads) max_threads = initial_threads();
  return max_threads;
}
void omp_set_num_threads(int n) { if (n > 0) max_threads = n; }
int omp_get_num_threads() { return self.size; }
int omp_get_thread_num() { return self.id; }
int omp_in_parallel() { return self.size > 1; }
int omp_get_level() { return self.depth; }
int omp_get_num_procs() { return 4; }
int omp_get_thread_limit() { return 64; }
void omp_set_nested(int) {}
void omp_set_dynamic(int) {}
int omp_get_dynamic() { return 0; }
double omp_get_wtime() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return double(t.tv_sec) + 1e-9*double(t.tv_nsec);
}

void GOMP_parallel(void (*fn)(void*), void* data, unsigned n, unsigned) {
  parallel(fn, data, n, nullptr);
}
void GOMP_barrier() {
  if (self.team) pthread_barrier_wait(&self.team->barrier);
}
void GOMP_critical_start() { pthread_mutex_lock(&critical); }
void GOMP_critical_end() { pthread_mutex_unlock(&critical); }
void GOMP_critical_name_start(void**) { pthread_mutex_lock(&critical); }
void GOMP_critical_name_end(void**) { pthread_mutex_unlock(&critical); }
void GOMP_atomic_start() { pthread_mutex_lock(&atomics); }
void GOMP_atomic_end() { pthread_mutex_unlock(&atomics); }

bool GOMP_single_start() {
  if (!self.team) return true;
  pthread_mutex_lock(&self.team->lock);
  bool mine = self.team->singles == self.nsingle;
  if (mine) self.team->singles++;
  self.nsingle++;
  pthread_mutex_unlock(&self.team->lock);
  return mine;
}

#define LOOP(kind) \
  bool GOMP_loop_##kind##_start(long b, long e, long i, long c, long* s, \
                                long* t) { \
    return start_loop(b, e, i, c, s, t); \
  } \
  bool GOMP_loop_##kind##_next(long* s, long* t) { return next_chunk(s, t); } \
  void GOMP_parallel_loop_##kind(void (*fn)(void*), void* d, unsigned n, \
                                 long b, long e, long i, long c, unsigned) { \
    Team::Loop l{b, e, i, c < 1 ? 1 : c}; \
    parallel(fn, d, n, &l); \
  }
#define LOOP_RT(kind) \
  bool GOMP_loop_##kind##_start(long b, long e, long i, long* s, long* t) { \
    return start_loop(b, e, i, 1, s, t); \
  } \
  bool GOMP_loop_##kind##_next(long* s, long* t) { return next_chunk(s, t); } \
  void GOMP_parallel_loop_##kind(void (*fn)(void*), void* d, unsigned n, \
                                 long b, long e, long i, unsigned) { \
    Team::Loop l{b, e, i, 1}; \
    parallel(fn, d, n, &l); \
  }
LOOP(static) LOOP(dynamic) LOOP(guided)
LOOP(nonmonotonic_dynamic) LOOP(nonmonotonic_guided)
LOOP_RT(runtime) LOOP_RT(nonmonotonic_runtime) LOOP_RT(maybe_nonmonotonic_runtime)
void GOMP_loop_end() { GOMP_barrier(); }
void GOMP_loop_end_nowait() {}

// The spline library is not instrumented: show the sanitizer the accesses it
// makes to the accelerator.
double gsl_spline_eval(const gsl_spline* s, double x, gsl_interp_accel* a) {
  if (!a) return gsl_interp_eval(s->interp, s->x, s->y, x, nullptr);
  size_t i = a->cache;
  if (i + 1 >= s->size || x < s->x[i] || x >= s->x[i + 1])
    i = gsl_interp_bsearch(s->x, x, 0, s->size - 1);
  a->cache = i;
  return gsl_interp_eval(s->interp, s->x, s->y, x, a);
}

}  // extern "C"

namespace {
struct AtEnd { ~AtEnd() { report(); } } at_end;
}  // namespace
