// Simulator core: choice tape, event log, simulated allocator, simulated clock,
// cooperative scheduler, violation reporting.
#pragma once
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <initializer_list>
#include <string>
#include <vector>

namespace sim {

// ---- choice tape -----------------------------------------------------------
// Every decision of a run is one draw. 0 is always the simplest choice.
uint32_t D(uint32_t n);                       // uniform in [0, n)
bool B(uint32_t den);                         // true with probability 1/den
uint32_t W(std::initializer_list<uint32_t> weights);  // weighted index
uint32_t Small(uint32_t max);                 // in [0, max], small values likelier
uint32_t Range(uint32_t lo, uint32_t hi);     // in [lo, hi]
uint64_t U64();
template <class T>
const T& Pick(const std::vector<T>& v) { return v[D((uint32_t)v.size())]; }

// ---- event log, statistics -------------------------------------------------
void Log(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
// Only printed when tracing; not part of the event-log hash.
void Note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void LogBytes(const char* what, const void* data, size_t n);
void Count(const char* name, uint64_t n = 1);
void NonTrivial();                            // marks the run as non-trivial
void State(uint64_t h);                       // one distinct-state observation
bool Tracing();
uint64_t Tier();                              // 0 quick, 1 thorough

// ---- violations ------------------------------------------------------------
[[noreturn]] void Fail(const char* sig, const char* fmt, ...)
    __attribute__((format(printf, 2, 3)));
#define SIM_CHECK(cond, sig, ...) \
  do {                            \
    if (!(cond)) ::sim::Fail(sig, __VA_ARGS__); \
  } while (0)

// ---- simulated clock -------------------------------------------------------
uint64_t Steps();                             // library edges executed so far
void SetStepBudget(uint64_t budget, const char* sig = "hang");  // from now on
void ClearStepBudget();
uint64_t Touched();                           // bytes the library moved, filled, scanned or compared

// ---- simulated allocator ---------------------------------------------------
struct AllocStats {
  uint64_t calls = 0, bytes = 0, failed = 0, live_bytes = 0, peak_bytes = 0;
};
struct FaultPlan {
  // fails the allocations with (1-based) number first..first+burst-1 made while
  // armed; if mod != 0 fails those for which hash(salt, number) % mod == 0.
  uint64_t first = 0, burst = 1;
  uint32_t mod = 0;
  uint64_t salt = 0;
  uint64_t max_size = 0;  // if non-zero fail requests larger than this
};
void ArmAlloc(const FaultPlan& plan);
uint64_t DisarmAlloc();          // number of faults fired while armed
bool AllocArmed();
uint64_t AllocFired();           // faults fired since arming
uint64_t AllocSeen();            // allocations since arming
AllocStats GetAllocStats();
void ResetPeak();
size_t LiveAllocs();
void CheckNoLeaks(const char* sig);
bool IsLive(const void* p, size_t* size = nullptr);
uint8_t Fill();                  // this pass's fill byte
void StackFill();                // paints the dead stack with the fill byte
struct Armed {
  explicit Armed(const FaultPlan& p) { ArmAlloc(p); }
  ~Armed() { DisarmAlloc(); }
};

// ---- scheduler -------------------------------------------------------------
// Runs the tasks on threads of which exactly one holds the baton; library edges
// are preemption points, quanta and successors come from the tape.
void RunTasks(const std::vector<std::function<void()>>& tasks, uint32_t max_quantum);
uint64_t Switches();

// ---- properties ------------------------------------------------------------
struct Property {
  const char* id;
  void (*run)();
  uint64_t quick_runs, thorough_runs;
  const char* rule;
};
struct Registrar {
  explicit Registrar(const Property& p);
};
#define SIM_PROPERTY(id, fn, quick, thorough, rule) \
  static ::sim::Registrar _reg_##fn(::sim::Property{id, fn, quick, thorough, rule});

inline uint64_t Mix(uint64_t h, uint64_t v) {
  h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
  h ^= h >> 33;
  h *= 0xff51afd7ed558ccdull;
  h ^= h >> 29;
  return h;
}
uint64_t HashBytes(const void* p, size_t n);
std::string Hex(const void* p, size_t n, size_t max = 64);
}  // namespace sim
