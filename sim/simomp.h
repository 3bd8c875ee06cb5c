// Deterministic OpenMP simulator: every team thread is a fiber on one OS
// thread; a seeded scheduler decides who runs at every instrumented memory
// access and every synchronisation operation.  See DESIGN.md, "simomp".
#pragma once
#include <cstddef>
#include <cstdint>

namespace sim {

enum Strategy {
  kRandom = 0,      // uniform choice, geometric quanta
  kPct = 1,         // random priorities with change points
  kRunToBlock = 2,  // no preemption, seeded choice when the runner blocks
  kStraggler = 3,   // one thread of each team only runs when nobody else can
  kRoundRobin = 4,  // fixed quantum, next in ring
  kSprinter = 5,    // one thread of each team runs whenever it can
  kReplay = 6,      // follow a recorded trace, default choice elsewhere
};

struct TracePoint {
  uint64_t step;
  uint32_t fiber;
  uint32_t kind;  // 0 preemption, 1 choice at a block/release
};

struct Config {
  uint64_t seed = 1;
  int strategy = kRunToBlock;
  uint32_t mean_quantum = 1000;
  uint32_t victim = 0;       // thread number for straggler/sprinter
  bool shadow = true;        // happens-before race detection on
  bool poison = false;       // fill fresh heap memory with a seeded pattern
  uint64_t max_steps = 0;    // 0: unlimited
  uint32_t stall_mean = 0;   // mean scheduling decisions between stalls
  uint32_t directed[32] = {};  // hold threads back at these accesses
  uint32_t n_directed = 0;
  const TracePoint* trace = nullptr;
  size_t trace_len = 0;
  bool record = false;
};

struct Race {
  uint32_t pc_new, pc_old;
  uint32_t tid_new, tid_old;
  uint8_t write_new, write_old;
  uint64_t addr;
  uint64_t step;
  uint64_t count;
};

struct Stats {
  uint64_t steps = 0, switches = 0, preemptions = 0, barriers = 0,
           singles = 0, criticals = 0, mutexes = 0, atomics = 0, parallels = 0,
           nested = 0, stalls = 0, max_team = 0, decisions = 0, accesses = 0;
  uint64_t schedule_hash = 1469598103934665603ull;
};

// Called (on some fiber) when the run cannot continue: deadlock, step budget,
// divergence.  Must not return.
using FatalFn = void (*)(const char* kind, const char* detail);

void Configure(const Config& c);
void SetFatal(FatalFn f);
// Runs fn(arg) as the initial thread.  Returns when it returned.
void RunMain(void (*fn)(void*), void* arg);
// From inside the initial thread: run n caller threads to completion.
void RunClients(int n, void (*fn)(void*, int), void* arg);

const Stats& GetStats();
const Race* Races(size_t* n);
const TracePoint* Trace(size_t* n);
const char* BarrierMismatch();  // "" if none
uint64_t Rand(uint64_t bound);  // workload randomness (own stream)
size_t HeapInUse();
int CurrentThreadNum();
int CurrentFiber();
bool MultiFiber();
}  // namespace sim
