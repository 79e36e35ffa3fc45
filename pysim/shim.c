// The seam under the Python extension: the malloc family of the library's and the binding's own
// objects, operator new of the same objects, and the edge callbacks.
#define _GNU_SOURCE
#include <errno.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

static int64_t g_live, g_allocs, g_first, g_burst, g_fired;
static uint8_t g_fill = 0xa5;
static uint64_t g_steps;
static const uint64_t kBudget = 400000000;  // no run has ever needed a hundredth of this
static const unsigned kDeadlock = 45;       // seconds; a run takes a hundredth of one
static uint32_t g_guards;
static uint8_t* g_seen;

#define API __attribute__((visibility("default")))
#define QUIET __attribute__((no_sanitize("coverage")))

API void pysim_reset(int fill) {
  g_allocs = g_fired = 0;
  g_first = g_burst = 0;
  g_steps = 0;
  alarm(kDeadlock);  // threads that wait for each other take no steps
  g_fill = (uint8_t)fill;
}
API void pysim_calm(void) { alarm(0); }
// The first-th allocation from now on and the burst - 1 that follow it fail.
API void pysim_arm(int64_t first, int64_t burst) {
  g_allocs = 0;
  g_first = first;
  g_burst = burst;
  g_fired = 0;
}
API int64_t pysim_disarm(void) {
  int64_t f = g_fired;
  g_first = g_burst = g_fired = 0;
  return f;
}
API int64_t pysim_live(void) { return g_live; }
API int64_t pysim_allocs(void) { return g_allocs; }
API uint64_t pysim_steps(void) { return g_steps; }
API uint32_t pysim_edges(uint8_t* out, uint32_t n) {
  for (uint32_t i = 0; i < n && i < g_guards; i++) out[i] = g_seen[i];
  return g_guards;
}

static int fails(void) {
  g_allocs++;
  if (g_first && g_allocs >= g_first && g_allocs < g_first + g_burst) {
    g_fired++;
    return 1;
  }
  return 0;
}
void* pysim_malloc(size_t n) {
  if (fails()) return NULL;
  void* p = malloc(n);
  if (!p) return p;
  memset(p, g_fill, n);
  g_live++;
  return p;
}
void* pysim_calloc(size_t n, size_t m) {
  if (fails()) return NULL;
  void* p = calloc(n, m);
  g_live += p != NULL;
  return p;
}
void* pysim_realloc(void* q, size_t n) {
  if (fails()) return NULL;
  if (!q) {
    void* p = malloc(n);
    if (p) memset(p, g_fill, n), g_live++;
    return p;
  }
  return realloc(q, n);
}
void pysim_free(void* p) {
  g_live -= p != NULL;
  free(p);
}
char* pysim_strdup(const char* s) {
  size_t n = strlen(s) + 1;
  char* p = (char*)pysim_malloc(n);
  if (p) memcpy(p, s, n);
  return p;
}
void* pysim_reallocarray(void* p, size_t a, size_t b) { return pysim_realloc(p, a * b); }
int pysim_new_fails(void) { return fails(); }

void __sanitizer_cov_trace_pc_guard_init(uint32_t* start, uint32_t* stop) {
  if (start == stop || *start) return;
  for (uint32_t* p = start; p < stop; p++) *p = ++g_guards;
  g_seen = (uint8_t*)realloc(g_seen, g_guards + 1);
  memset(g_seen, 0, g_guards + 1);
}
void __sanitizer_cov_trace_pc_guard(uint32_t* guard) {
  if (++g_steps > kBudget) _exit(98);
  if (*guard && *guard <= g_guards) g_seen[*guard - 1] = 1;
}

// Calls a release callback without holding the interpreter's lock (the caller, ctypes, drops it).
struct Releasable {
  int64_t a[8];
};
API void pysim_release_array(void* array, int64_t at) {
  void (**release)(void*) = (void (**)(void*))((char*)array + at);
  if (*release) (*release)(array);
}

#include <pthread.h>
struct Job {
  void* array;
  int64_t at;
};
static void* run_job(void* p) {
  struct Job* j = (struct Job*)p;
  pysim_release_array(j->array, j->at);
  return NULL;
}
// The same on a thread of its own, which the interpreter has never seen.
API void pysim_release_on_thread(void* array, int64_t at) {
  struct Job j = {array, at};
  pthread_t t;
  if (pthread_create(&t, NULL, run_job, &j)) abort();
  pthread_join(t, NULL);
}

// Choices: from the tape when there is one, from the seeded generator otherwise; recorded in rec
// (rec[-1] is their number).
static uint64_t g_x;
static const uint32_t* g_tape;
static int64_t g_ntape, g_pos, g_max;
static uint32_t* g_rec;
API void pysim_choices(uint64_t seed, const uint32_t* tape, int64_t ntape, uint32_t* rec, int64_t max) {
  g_x = seed, g_tape = tape, g_ntape = ntape, g_rec = rec, g_max = max, g_pos = 0;
  if (rec) rec[-1] = 0;
}
API uint32_t pysim_draw(uint32_t n) {
  if (n <= 1) return 0;
  uint32_t v = 0;
  if (g_tape) {
    if (g_pos < g_ntape) v = g_tape[g_pos] % n;
  } else {
    g_x += 0x9E3779B97F4A7C15ull;
    uint64_t z = g_x;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    v = (uint32_t)(z ^ (z >> 31)) % n;
  }
  if (g_rec && g_pos < g_max) g_rec[g_pos] = v, g_rec[-1] = (uint32_t)(g_pos + 1);
  g_pos++;
  return v;
}
API int64_t pysim_drawn(void) { return g_pos; }
