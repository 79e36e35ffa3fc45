#include "core.h"

#include <errno.h>
#include <fcntl.h>
#include <malloc.h>
#include <pthread.h>
#include <sanitizer/asan_interface.h>
#include <semaphore.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <cstdlib>
#include <map>
#include <unordered_map>
#include <unordered_set>

namespace sim {
namespace {

constexpr size_t kTapeMax = 1 << 21;
constexpr int kMaxStats = 384;

struct Stat {
  char name[56];
  uint64_t value;
};

enum { kIdle = 0, kRunning = 1, kFailed = 2, kDone = 3 };

// Lives in a shared mapping, so that it survives the death of this process.
struct Shared {
  volatile uint32_t state;
  uint32_t pass;
  uint64_t index;
  uint64_t runs, nontrivial, passes, steps, draws, wall_ns;
  uint64_t log_hash;  // of the last finished pass
  char sig[256];
  char msg[8192];
  uint32_t tape_len;
  uint32_t nstats;
  Stat stats[kMaxStats];
  uint32_t tape[kTapeMax];
};

Shared* S;

// --- tape state
bool g_replay;
const uint32_t* g_in;
size_t g_in_len, g_pos;
uint64_t g_rng;

// --- log
uint64_t g_hash;
FILE* g_trace;
bool g_nontrivial;
uint64_t g_tier;
std::unordered_set<uint64_t>* g_states;

// --- clock
uint64_t g_steps;
uint64_t g_step_limit = ~0ull;
const char* g_step_sig = "hang";

// --- coverage
std::vector<uint8_t>* g_edges;
uint32_t g_nguards;

// --- allocator
struct Live {
  size_t size;
  uint64_t serial;
};
std::unordered_map<void*, Live>* g_live;
AllocStats g_as;
uint8_t g_fill = 0xA5;
uint64_t g_moved = 0;  // reallocations that moved their block
uint64_t g_serial;

struct TaskCtx {
  int id = -1;
  bool armed = false;
  FaultPlan plan;
  uint64_t seen = 0, fired = 0;
  int64_t quantum = 0;
};
TaskCtx g_main_ctx;
thread_local TaskCtx* t_ctx = nullptr;
TaskCtx& Ctx() { return t_ctx ? *t_ctx : g_main_ctx; }

uint64_t SplitMix(uint64_t& s) {
  uint64_t z = (s += 0x9E3779B97F4A7C15ull);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}

std::vector<Property>& Props() {
  static std::vector<Property> v;
  return v;
}

void Die(int code) {
  if (g_trace) fflush(g_trace);
  fflush(stdout);
  _exit(code);
}
}  // namespace

// ---------------------------------------------------------------- tape
uint32_t D(uint32_t n) {
  if (n <= 1) return 0;
  uint32_t v;
  if (g_replay) {
    v = g_pos < g_in_len ? g_in[g_pos] % n : 0;
  } else {
    v = (uint32_t)(((SplitMix(g_rng) >> 32) * (uint64_t)n) >> 32);
  }
  if (g_pos < kTapeMax) {
    S->tape[g_pos] = v;
    S->tape_len = (uint32_t)(g_pos + 1);
  }
  g_pos++;
  return v;
}
bool B(uint32_t den) { return den <= 1 ? true : D(den) == den - 1; }
uint32_t W(std::initializer_list<uint32_t> w) {
  uint32_t total = 0;
  for (auto x : w) total += x;
  uint32_t v = D(total), i = 0;
  for (auto x : w) {
    if (v < x) return i;
    v -= x;
    i++;
  }
  return 0;
}
uint32_t Small(uint32_t max) {
  if (max == 0) return 0;
  switch (W({4, 3, 2, 1})) {
    case 0:
      return D(std::min<uint32_t>(max, 1) + 1);
    case 1:
      return D(std::min<uint32_t>(max, 3) + 1);
    case 2:
      return D(std::min<uint32_t>(max, 8) + 1);
    default:
      return D(max + 1);
  }
}
uint32_t Range(uint32_t lo, uint32_t hi) { return lo + D(hi - lo + 1); }
uint64_t U64() {
  uint64_t hi = D(0xFFFFFFFFu), lo = D(0xFFFFFFFFu);
  return (hi << 32) | lo;
}

// ---------------------------------------------------------------- log
uint64_t HashBytes(const void* p, size_t n) {
  uint64_t h = 0xcbf29ce484222325ull;
  const uint8_t* b = (const uint8_t*)p;
  size_t i = 0;
  for (; i + 8 <= n; i += 8) {
    uint64_t v;
    memcpy(&v, b + i, 8);
    h = Mix(h, v);
  }
  for (; i < n; i++) h = (h ^ b[i]) * 0x100000001b3ull;
  return Mix(h, n);
}
std::string Hex(const void* p, size_t n, size_t max) {
  std::string s;
  char b[3];
  for (size_t i = 0; i < n && i < max; i++) {
    snprintf(b, 3, "%02x", ((const uint8_t*)p)[i]);
    s += b;
  }
  if (n > max) s += "..";
  return s;
}
void Log(const char* fmt, ...) {
  char buf[2048];
  va_list ap;
  va_start(ap, fmt);
  int n = vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  if (n > (int)sizeof buf - 1) n = sizeof buf - 1;
  if (t_ctx) g_hash = Mix(g_hash, t_ctx->id + 1);
  g_hash = Mix(g_hash, HashBytes(buf, n));
  if (g_trace) {
    if (t_ctx) fprintf(g_trace, "[task %d] ", t_ctx->id);
    fprintf(g_trace, "%s\n", buf);
  }
}
void Note(const char* fmt, ...) {
  if (!g_trace) return;
  va_list ap;
  va_start(ap, fmt);
  fprintf(g_trace, "   ");
  vfprintf(g_trace, fmt, ap);
  fprintf(g_trace, "\n");
  va_end(ap);
}
void LogBytes(const char* what, const void* data, size_t n) {
  g_hash = Mix(g_hash, HashBytes(data, n));
  if (g_trace) fprintf(g_trace, "%s[%zu] %s\n", what, n, Hex(data, n, 4096).c_str());
}
bool Tracing() { return g_trace != nullptr; }
uint64_t Tier() { return g_tier; }
void Count(const char* name, uint64_t n) {
  static thread_local std::unordered_map<std::string, int> cache;
  auto it = cache.find(name);
  int i;
  if (it == cache.end()) {
    for (i = 0; i < (int)S->nstats; i++)
      if (strcmp(S->stats[i].name, name) == 0) break;
    if (i == (int)S->nstats) {
      if (i >= kMaxStats) return;
      snprintf(S->stats[i].name, sizeof S->stats[i].name, "%s", name);
      S->nstats++;
    }
    cache[name] = i;
  } else {
    i = it->second;
  }
  S->stats[i].value += n;
}
void NonTrivial() { g_nontrivial = true; }
void State(uint64_t h) {
  if (g_states && g_states->size() < 4000000) g_states->insert(h);
}

// ---------------------------------------------------------------- violations
void Fail(const char* sig, const char* fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(S->msg, sizeof S->msg, fmt, ap);
  va_end(ap);
  snprintf(S->sig, sizeof S->sig, "%s", sig);
  S->state = kFailed;
  S->log_hash = g_hash;
  if (g_trace) fprintf(g_trace, "!! %s: %s\n", S->sig, S->msg);
  Die(1);
}

static void AsanReport(const char* report) {
  const char* d = __asan_get_report_description();
  snprintf(S->sig, sizeof S->sig, "asan:%s", d && *d ? d : "error");
  snprintf(S->msg, sizeof S->msg, "%s", report);
  S->state = kFailed;
  S->log_hash = g_hash;
  if (g_trace) {
    fprintf(g_trace, "!! %s\n", S->sig);
    fflush(g_trace);
  }
}

static void OnAlarm(int) {
  snprintf(S->sig, sizeof S->sig, "wall-timeout");
  snprintf(S->msg, sizeof S->msg,
           "a run did not finish within the wall clock limit (steps=%llu)",
           (unsigned long long)g_steps);
  S->state = kFailed;
  S->log_hash = 0;
  _exit(1);
}

static void OnAbort(int) {
  snprintf(S->sig, sizeof S->sig, "abort");
  snprintf(S->msg, sizeof S->msg, "the library aborted");
  S->state = kFailed;
  S->log_hash = g_hash;
  _exit(1);
}

// ---------------------------------------------------------------- clock
uint64_t Steps() { return g_steps; }
static uint64_t g_touched;
uint64_t Touched() { return g_touched; }
void SetStepBudget(uint64_t budget, const char* sig) {
  g_step_limit = g_steps + budget;
  g_step_sig = sig;
}
constexpr uint64_t kDefaultBudget = 60000000;
void ClearStepBudget() {
  g_step_limit = g_steps + kDefaultBudget;
  g_step_sig = "hang";
}

// ---------------------------------------------------------------- allocator
void ArmAlloc(const FaultPlan& plan) {
  TaskCtx& c = Ctx();
  c.armed = true;
  c.plan = plan;
  c.seen = c.fired = 0;
}
uint64_t DisarmAlloc() {
  TaskCtx& c = Ctx();
  c.armed = false;
  return c.fired;
}
bool AllocArmed() { return Ctx().armed; }
uint64_t AllocFired() { return Ctx().fired; }
uint64_t AllocSeen() { return Ctx().seen; }
AllocStats GetAllocStats() { return g_as; }
void ResetPeak() { g_as.peak_bytes = g_as.live_bytes; }
size_t LiveAllocs() { return g_live->size(); }
bool IsLive(const void* p, size_t* size) {
  auto it = g_live->find(const_cast<void*>(p));
  if (it == g_live->end()) return false;
  if (size) *size = it->second.size;
  return true;
}
uint8_t Fill() { return g_fill; }
__attribute__((noinline, no_sanitize("address"))) void StackFill() {
  volatile uint8_t buf[24576];
  for (size_t i = 0; i < sizeof buf; i++) buf[i] = g_fill;
}
void CheckNoLeaks(const char* sig) {
  if (g_live->empty()) return;
  uint64_t bytes = 0;
  std::vector<std::pair<uint64_t, size_t>> v;
  for (auto& kv : *g_live) {
    bytes += kv.second.size;
    v.push_back({kv.second.serial, kv.second.size});
  }
  std::sort(v.begin(), v.end());
  std::string s;
  for (size_t i = 0; i < v.size() && i < 8; i++)
    s += " #" + std::to_string(v[i].first) + ":" + std::to_string(v[i].second);
  Fail(sig, "%zu allocations (%llu bytes) are still live after everything was released:%s",
       v.size(), (unsigned long long)bytes, s.c_str());
}

static bool ShouldFail(size_t size) {
  TaskCtx& c = Ctx();
  if (!c.armed) return false;
  c.seen++;
  bool f = false;
  if (c.plan.first && c.seen >= c.plan.first && c.seen < c.plan.first + c.plan.burst)
    f = true;
  if (c.plan.mod && Mix(c.plan.salt, c.seen) % c.plan.mod == 0) f = true;
  if (c.plan.max_size && size > c.plan.max_size) f = true;
  if (f) {
    c.fired++;
    g_as.failed++;
    Count("fault.alloc_failed");
    Log("  <alloc #%llu of %zu bytes fails>", (unsigned long long)c.seen, size);
  }
  return f;
}
}  // namespace sim

namespace sim {
static void Preempt();
struct Point {  // a preemption point around a call to the outside
  static void Tick() {
    if (t_ctx && --t_ctx->quantum <= 0) Preempt();
  }
  Point() { Tick(); }
  ~Point() { Tick(); }
};
}  // namespace sim

extern "C" {
void* sim_malloc(size_t size) {
  using namespace sim;
  Point _;
  g_as.calls++;
  g_as.bytes += size;
  if (ShouldFail(size)) {
    errno = ENOMEM;
    return nullptr;
  }
  if (size > (256u << 20)) {
    Count("fault.alloc_refused_huge");
    errno = ENOMEM;
    return nullptr;
  }
  void* p = malloc(size ? size : 1);
  if (size) memset(p, g_fill, size);
  (*g_live)[p] = Live{size, ++g_serial};
  g_as.live_bytes += size;
  if (g_as.live_bytes > g_as.peak_bytes) g_as.peak_bytes = g_as.live_bytes;
  return p;
}
void sim_free(void* p) {
  using namespace sim;
  if (!p) return;
  Point _;
  auto it = g_live->find(p);
  if (it == g_live->end()) {
    if (__asan_address_is_poisoned(p)) free(p);  // ASan reports the double free
    Fail("invalid-free", "the library freed a pointer it does not own");
  }
  g_as.live_bytes -= it->second.size;
  g_live->erase(it);
  free(p);
}
void* sim_calloc(size_t n, size_t m) {
  size_t sz;
  if (__builtin_mul_overflow(n, m, &sz)) return nullptr;
  void* p = sim_malloc(sz);
  if (p && sz) memset(p, 0, sz);
  return p;
}
void* sim_realloc(void* p, size_t size) {
  using namespace sim;
  if (!p) return sim_malloc(size);
  auto it = g_live->find(p);
  if (it == g_live->end()) Fail("invalid-free", "realloc of a pointer the library does not own");
  size_t old = it->second.size;
  void* q = sim_malloc(size);  // always moves
  if (!q) return nullptr;
  g_touched += old < size ? old : size;
  g_moved++;
  memcpy(q, p, old < size ? old : size);
  sim_free(p);
  return q;
}
// Bulk memory and string functions are one step each to the edge counter: they are
// charged by the bytes they handle. They are preemption points before and after.
void* sim_memcpy(void* d, const void* s, size_t n) {
  sim::Point _;
  sim::g_touched += n;
  return memcpy(d, s, n);
}
void* sim_memmove(void* d, const void* s, size_t n) {
  sim::Point _;
  sim::g_touched += n;
  return memmove(d, s, n);
}
void* sim_memset(void* d, int c, size_t n) {
  sim::Point _;
  sim::g_touched += n;
  return memset(d, c, n);
}
int sim_memcmp(const void* a, const void* b, size_t n) {
  sim::Point _;
  sim::g_touched += n;
  return memcmp(a, b, n);
}
int sim_bcmp(const void* a, const void* b, size_t n) {
  sim::Point _;
  sim::g_touched += n;
  return bcmp(a, b, n);
}
void* sim_memchr(const void* a, int c, size_t n) {
  sim::Point _;
  const void* r = memchr(a, c, n);
  sim::g_touched += r ? (size_t)((const char*)r - (const char*)a) : n;
  return (void*)r;
}
size_t sim_strlen(const char* s) {
  sim::Point _;
  size_t n = strlen(s);
  sim::g_touched += n;
  return n;
}
int sim_strcmp(const char* a, const char* b) {
  sim::Point _;
  size_t k = 0;
  while (a[k] && a[k] == b[k]) k++;
  sim::g_touched += k + 1;
  return (unsigned char)a[k] - (unsigned char)b[k];
}
int sim_strncmp(const char* a, const char* b, size_t n) {
  sim::Point _;
  size_t k = 0;
  while (k < n && a[k] && a[k] == b[k]) k++;
  sim::g_touched += k + 1;
  return k == n ? 0 : (unsigned char)a[k] - (unsigned char)b[k];
}
char* sim_strdup(const char* s) {
  size_t n = strlen(s) + 1;
  char* p = (char*)sim_malloc(n);
  if (p) memcpy(p, s, n);
  return p;
}
void* sim_reallocarray(void* p, size_t n, size_t m) {
  sim::Point _;
  size_t sz;
  if (__builtin_mul_overflow(n, m, &sz)) return nullptr;
  return sim_realloc(p, sz);
}
int sim_vsnprintf(char* d, size_t n, const char* f, va_list ap) {
  sim::Point _;
  return vsnprintf(d, n, f, ap);
}
int sim_snprintf(char* d, size_t n, const char* f, ...) {
  sim::Point _;
  va_list ap;
  va_start(ap, f);
  int r = vsnprintf(d, n, f, ap);
  va_end(ap);
  return r;
}
double sim_strtod(const char* s, char** e) {
  sim::Point _;
  return strtod(s, e);
}
long sim_strtol(const char* s, char** e, int b) {
  sim::Point _;
  return strtol(s, e, b);
}
long long sim_strtoll(const char* s, char** e, int b) {
  sim::Point _;
  return strtoll(s, e, b);
}

// ---- coverage edges: simulated clock and preemption points
void __sanitizer_cov_trace_pc_guard_init(uint32_t* start, uint32_t* stop) {
  if (start == stop || *start) return;
  for (uint32_t* x = start; x < stop; x++) *x = ++sim::g_nguards;
  if (!sim::g_edges) sim::g_edges = new std::vector<uint8_t>();
  sim::g_edges->resize(sim::g_nguards + 1);
}
}  // extern C

extern "C" void __sanitizer_cov_trace_pc_guard(uint32_t* guard) {
  using namespace sim;
  (*g_edges)[*guard] = 1;
  if (++g_steps > g_step_limit) {
    g_step_limit = ~0ull;
    Fail(g_step_sig, "more than the allowed number of steps executed (%llu in this run)",
         (unsigned long long)g_steps);
  }
  if (t_ctx && --t_ctx->quantum <= 0) Preempt();
}

// ---------------------------------------------------------------- scheduler
namespace sim {
namespace {
struct Task {
  TaskCtx ctx;
  sem_t sem;
  pthread_t th;
  bool done = false;
  const std::function<void()>* fn;
};
std::vector<Task*>* g_tasks;
uint32_t g_maxq = 64;
sem_t g_main_sem;
uint64_t g_switches;

int64_t DrawQuantum() {
  // mostly short, sometimes long
  switch (W({3, 3, 1})) {
    case 0:
      return 1 + D(g_maxq);
    case 1:
      return 1 + D(8);
    default:
      return 1 + D(g_maxq * 32);
  }
}
Task* NextTask(Task* self) {
  std::vector<Task*> ready;
  for (auto t : *g_tasks)
    if (!t->done && t != self) ready.push_back(t);
  if (ready.empty()) return self && !self->done ? self : nullptr;
  return ready[D((uint32_t)ready.size())];
}
void* TaskMain(void* arg) {
  Task* t = (Task*)arg;
  while (sem_wait(&t->sem) != 0) {
  }
  t_ctx = &t->ctx;
  (*t->fn)();
  t_ctx = nullptr;
  t->done = true;
  Task* n = NextTask(t);
  if (n) {
    n->ctx.quantum = DrawQuantum();
    sem_post(&n->sem);
  } else {
    sem_post(&g_main_sem);
  }
  return nullptr;
}
}  // namespace
static void Preempt() {
  TaskCtx* c = t_ctx;
  Task* self = (*g_tasks)[c->id];
  t_ctx = nullptr;
  Task* n = NextTask(self);
  t_ctx = c;
  if (n == self || n == nullptr) {
    c->quantum = 1ll << 40;  // alone
    return;
  }
  g_switches++;
  n->ctx.quantum = DrawQuantum();
  g_hash = Mix(g_hash, Mix(n->ctx.id, g_steps));
  sem_post(&n->sem);
  while (sem_wait(&self->sem) != 0) {
  }
}
uint64_t Switches() { return g_switches; }
void RunTasks(const std::vector<std::function<void()>>& fns, uint32_t max_quantum) {
  std::vector<Task*> tasks;
  g_maxq = max_quantum;
  sem_init(&g_main_sem, 0, 0);
  for (size_t i = 0; i < fns.size(); i++) {
    Task* t = new Task();
    t->ctx.id = (int)i;
    t->fn = &fns[i];
    sem_init(&t->sem, 0, 0);
    tasks.push_back(t);
  }
  g_tasks = &tasks;
  pthread_attr_t at;
  pthread_attr_init(&at);
  pthread_attr_setstacksize(&at, 1 << 20);
  for (auto t : tasks) pthread_create(&t->th, &at, TaskMain, t);
  Task* n = tasks[D((uint32_t)tasks.size())];
  n->ctx.quantum = DrawQuantum();
  sem_post(&n->sem);
  while (sem_wait(&g_main_sem) != 0) {
  }
  for (auto t : tasks) {
    pthread_join(t->th, nullptr);
    sem_destroy(&t->sem);
    delete t;
  }
  pthread_attr_destroy(&at);
  sem_destroy(&g_main_sem);
  g_tasks = nullptr;
}

Registrar::Registrar(const Property& p) { Props().push_back(p); }

// ---------------------------------------------------------------- running
namespace {
const uint8_t kFills[3] = {0xA5, 0x00, 0xFF};

void ResetPass(int pass) {
  g_pos = 0;
  g_hash = 0x1234;
  g_nontrivial = false;
  g_steps = 0;
  g_serial = 0;
  g_switches = 0;
  g_fill = kFills[pass];
  g_main_ctx = TaskCtx();
  g_as = AllocStats();
  g_step_sig = "hang";
  g_step_limit = kDefaultBudget;
  S->pass = pass;
  S->tape_len = 0;
  errno = 0;
}

uint64_t PropRunSeed(const char* prop, uint64_t seed, uint64_t index) {
  uint64_t s = Mix(HashBytes(prop, strlen(prop)), seed);
  s = Mix(s, index);
  return s;
}

// Runs the property once on the current tape source; returns the log hash.
uint64_t Pass(const Property& p, int pass) {
  ResetPass(pass);
  S->state = kRunning;
  StackFill();
  g_moved = 0;
  p.run();
  CheckNoLeaks("leak");
  if (g_moved) Count("fault.realloc_moved", g_moved);
  if (g_as.calls) Count("fault.fresh_memory_filled", g_as.calls);
  S->passes++;
  S->steps += g_steps;
  S->draws += g_pos;
  S->log_hash = g_hash;
  S->state = kDone;
  return g_hash;
}

void Watchdog(int secs) {
  struct itimerval it = {};
  it.it_value.tv_sec = secs;
  setitimer(ITIMER_REAL, &it, nullptr);
}

Shared* MapShared(const char* path) {
  void* m;
  if (path) {
    int fd = open(path, O_RDWR | O_CREAT, 0644);
    if (fd < 0 || ftruncate(fd, sizeof(Shared)) != 0) {
      perror("shared");
      exit(4);
    }
    m = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    close(fd);
  } else {
    m = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS,
             -1, 0);
  }
  return (Shared*)m;
}

void Handlers() {
  __asan_set_error_report_callback(&AsanReport);
  signal(SIGALRM, &OnAlarm);
  signal(SIGABRT, &OnAbort);
}

double Now() {
  struct timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + ts.tv_nsec * 1e-9;
}

std::vector<uint32_t> ReadTape(const char* path) {
  std::vector<uint32_t> t;
  FILE* f = fopen(path, "r");
  if (!f) {
    perror(path);
    exit(4);
  }
  unsigned v;
  while (fscanf(f, "%u", &v) == 1) t.push_back(v);
  fclose(f);
  return t;
}

// The passes of a run. `mask` selects the fill patterns; the event logs of all
// passes must be identical.
void AllPasses(const Property& p, int mask, const std::vector<uint32_t>* tape,
               uint64_t seed, uint64_t index) {
  std::vector<uint32_t> own;
  uint64_t first = 0;
  bool have = false;
  for (int pass = 0; pass < 3; pass++) {
    if (!(mask & (1 << pass))) continue;
    if (tape) {
      g_replay = true;
      g_in = tape->data();
      g_in_len = tape->size();
    } else if (!have) {
      g_replay = false;
      g_rng = PropRunSeed(p.id, seed, index);
    } else {
      g_replay = true;
      g_in = own.data();
      g_in_len = own.size();
    }
    if (g_trace) fprintf(g_trace, "--- pass with fill byte 0x%02x\n", kFills[pass]);
    uint64_t h = Pass(p, pass);
    if (!have) {
      first = h;
      have = true;
      if (!tape && mask != (1 << pass))
        own.assign(S->tape, S->tape + std::min<size_t>(S->tape_len, kTapeMax));
    } else if (h != first) {
      if (!own.empty()) memcpy(S->tape, own.data(), own.size() * sizeof own[0]);
      if (!tape) S->tape_len = (uint32_t)own.size();
      Fail("uninitialized",
           "the outcome depends on uninitialised memory: same choices, other fill byte, "
           "different event log");
    }
  }
}

struct ChildResult {
  bool failed;
  std::string sig;
  uint64_t hash;
  std::vector<uint32_t> tape;
};

ChildResult RunChild(const Property& p, int mask, const std::vector<uint32_t>& tape) {
  S->state = kIdle;
  S->sig[0] = 0;
  pid_t pid = fork();
  if (pid == 0) {
    int fd = open("/dev/null", O_WRONLY);
    dup2(fd, 1);
    dup2(fd, 2);
    Watchdog(20);
    AllPasses(p, mask, &tape, 0, 0);
    _exit(0);
  }
  int st;
  waitpid(pid, &st, 0);
  ChildResult r;
  r.failed = S->state == kFailed || !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
  r.sig = S->state == kFailed ? S->sig : r.failed ? "killed" : "";
  r.hash = S->log_hash;
  r.tape.assign(S->tape, S->tape + std::min<size_t>(S->tape_len, kTapeMax));
  return r;
}

int Minimise(const Property& p, const char* in, const char* out, double secs) {
  std::vector<uint32_t> best = ReadTape(in);
  int mask = 7;
  ChildResult r0 = RunChild(p, mask, best);
  if (!r0.failed) {
    printf("NOT-REPRODUCED\n");
    return 3;
  }
  std::string sig = r0.sig;
  // A single pass is enough unless the failure is a difference between passes.
  for (int m = 1; m < 8 && sig != "uninitialized"; m <<= 1) {
    ChildResult r = RunChild(p, m, best);
    if (r.failed && r.sig == sig) {
      mask = m;
      break;
    }
  }
  double end = Now() + secs;
  size_t tries = 0;
  auto better = [](const std::vector<uint32_t>& a, const std::vector<uint32_t>& b) {
    if (a.size() != b.size()) return a.size() < b.size();
    return a < b;
  };
  auto trim = [](std::vector<uint32_t>& t) {
    while (!t.empty() && t.back() == 0) t.pop_back();
  };
  auto attempt = [&](std::vector<uint32_t> cand) {
    trim(cand);
    if (!better(cand, best)) return false;
    tries++;
    ChildResult r = RunChild(p, mask, cand);
    if (!r.failed || r.sig != sig) return false;
    // normalise to the values actually used
    std::vector<uint32_t> used = r.tape;
    trim(used);
    best = better(used, cand) ? used : cand;
    return true;
  };
  trim(best);
  bool progress = true;
  while (progress && Now() < end) {
    progress = false;
    for (size_t len = std::max<size_t>(1, best.size() / 2); len >= 1 && Now() < end;
         len /= 2) {
      for (size_t i = 0; i < best.size() && Now() < end;) {
        std::vector<uint32_t> c = best;
        size_t n = std::min(len, c.size() - i);
        c.erase(c.begin() + i, c.begin() + i + n);
        if (attempt(c)) {
          progress = true;
          continue;
        }
        bool any = false;
        for (size_t k = i; k < i + n; k++) any |= best[k] != 0;
        if (any) {
          c = best;
          std::fill(c.begin() + i, c.begin() + i + n, 0u);
          if (attempt(c)) progress = true;
        }
        i += len;
      }
      if (len == 1) break;
    }
    for (size_t i = 0; i < best.size() && Now() < end; i++) {
      if (best[i] == 0) continue;
      std::vector<uint32_t> c = best;
      c[i] = 0;
      if (attempt(c)) {
        progress = true;
        continue;
      }
      uint32_t lo = 0, hi = i < best.size() ? best[i] : 0;
      for (int k = 0; k < 12 && hi - lo > 1 && i < best.size() && Now() < end; k++) {
        uint32_t mid = lo + (hi - lo) / 2;
        c = best;
        c[i] = mid;
        if (attempt(c)) {
          progress = true;
          if (i >= best.size()) break;
          hi = std::min(mid, best[i]);
        } else {
          lo = mid;
        }
      }
    }
  }
  FILE* f = fopen(out, "w");
  for (auto v : best) fprintf(f, "%u ", v);
  fprintf(f, "\n");
  fclose(f);
  printf("MINIMISED draws=%zu tries=%zu sig=%s\n", best.size(), tries, sig.c_str());
  return 0;
}
}  // namespace

int Main(int argc, char** argv) {
  std::string prop, mode = "run", shared, hashes, tape, out;
  uint64_t seed = 1, from = 0, stride = 1, count = 0, index = 0;
  double secs = 1e9;
  bool trace = false;
  int mask = 7;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto next = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--prop") prop = next();
    else if (a == "--mode") mode = next();
    else if (a == "--seed") seed = strtoull(next().c_str(), nullptr, 10);
    else if (a == "--from") from = strtoull(next().c_str(), nullptr, 10);
    else if (a == "--stride") stride = strtoull(next().c_str(), nullptr, 10);
    else if (a == "--count") count = strtoull(next().c_str(), nullptr, 10);
    else if (a == "--index") index = strtoull(next().c_str(), nullptr, 10);
    else if (a == "--secs") secs = atof(next().c_str());
    else if (a == "--shared") shared = next();
    else if (a == "--hashes") hashes = next();
    else if (a == "--tape") tape = next();
    else if (a == "--out") out = next();
    else if (a == "--trace") trace = true;
    else if (a == "--mask") mask = atoi(next().c_str());
    else if (a == "--tier") g_tier = next() == "thorough";
  }
  if (mode == "list") {
    for (auto& p : Props())
      printf("%s\t%llu\t%llu\t%s\n", p.id, (unsigned long long)p.quick_runs,
             (unsigned long long)p.thorough_runs, p.rule);
    return 0;
  }
  const Property* p = nullptr;
  for (auto& q : Props())
    if (prop == q.id) p = &q;
  if (!p) {
    fprintf(stderr, "no property %s\n", prop.c_str());
    return 4;
  }
  mallopt(M_ARENA_MAX, 1);
  g_live = new std::unordered_map<void*, Live>();
  if (!g_edges) g_edges = new std::vector<uint8_t>(1);
  S = MapShared(shared.empty() ? nullptr : shared.c_str());
  Handlers();
  if (trace) g_trace = stdout;

  if (mode == "minimise") return Minimise(*p, tape.c_str(), out.c_str(), secs);
  if (mode == "replay") {
    std::vector<uint32_t> t = ReadTape(tape.c_str());
    Watchdog(60);
    AllPasses(*p, mask, &t, 0, 0);
    printf("HELD hash=%016llx\n", (unsigned long long)S->log_hash);
    return 0;
  }
  if (mode == "index") {
    Watchdog(60);
    AllPasses(*p, mask, nullptr, seed, index);
    printf("HELD hash=%016llx draws=%u\n", (unsigned long long)S->log_hash, S->tape_len);
    return 0;
  }
  // worker
  std::unordered_set<uint64_t> states, runs, nontriv;
  g_states = &states;
  double t0 = Now();
  for (uint64_t i = from; i < count; i += stride) {
    if (Now() - t0 > secs) break;
    S->index = i;
    Watchdog(30);
    int m = 1;
    if (i % 4 == 0) m |= 2;
    if (i % 16 == 0) m |= 4;
    AllPasses(*p, m, nullptr, seed, i);
    S->runs++;
    runs.insert(S->log_hash);
    if (g_nontrivial) {
      S->nontrivial++;
      nontriv.insert(S->log_hash);
    }
    S->wall_ns = (uint64_t)((Now() - t0) * 1e9);
  }
  Watchdog(0);
  if (!hashes.empty()) {
    FILE* f = fopen(hashes.c_str(), "w");
    fprintf(f, "{\"runs\":[");
    bool c = false;
    for (auto h : runs) {
      fprintf(f, "%s\"%llx\"", c ? "," : "", (unsigned long long)h);
      c = true;
    }
    fprintf(f, "],\"nontrivial\":[");
    c = false;
    for (auto h : nontriv) {
      fprintf(f, "%s\"%llx\"", c ? "," : "", (unsigned long long)h);
      c = true;
    }
    fprintf(f, "],\"states\":[");
    c = false;
    for (auto h : states) {
      fprintf(f, "%s\"%llx\"", c ? "," : "", (unsigned long long)h);
      c = true;
    }
    fprintf(f, "],\"edges\":[");
    c = false;
    for (size_t k = 1; k < g_edges->size(); k++)
      if ((*g_edges)[k]) {
        fprintf(f, "%s%zu", c ? "," : "", k);
        c = true;
      }
    fprintf(f, "],\"guards\":%u}", g_nguards);
    fclose(f);
  }
  S->state = kIdle;
  return 0;
}
}  // namespace sim

int main(int argc, char** argv) { return sim::Main(argc, argv); }
