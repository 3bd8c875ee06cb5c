// See simomp.h.  Compiled without instrumentation; linked instead of libgomp
// and of the ThreadSanitizer runtime.
#include "simomp.h"

#include <cxxabi.h>
#include <errno.h>
#include <link.h>
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>

extern "C" {
void* __real_memcpy(void*, const void*, size_t);
void* __real_memmove(void*, const void*, size_t);
void* __real_memset(void*, int, size_t);
}

namespace sim {
namespace {

// ---------------------------------------------------------------- memory map
constexpr uintptr_t kArena = 0x200000000000ull;
constexpr uintptr_t kArenaSize = 16ull << 30;
constexpr uintptr_t kExe = 0x400000ull;  // non-PIE image: code, data, bss
constexpr uintptr_t kExeSize = 64ull << 20;
constexpr uintptr_t kSh = 0x300000000000ull;      // 32 bytes per 8
constexpr uintptr_t kShExe = 0x380000000000ull;
constexpr uintptr_t kPc = 0x400000000000ull;      // 16 bytes per 8
constexpr uintptr_t kPcExe = 0x480000000000ull;
bool g_maps_ready = false;

void* MapAt(uintptr_t at, size_t size) {
  void* p = mmap(reinterpret_cast<void*>(at), size, PROT_READ | PROT_WRITE,
                 MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE,
                 -1, 0);
  if (p == MAP_FAILED) {
    static const char m[] = "simomp: mmap failed\n";
    (void)!write(2, m, sizeof m - 1);
    _exit(97);
  }
  return p;
}

uintptr_t g_bump = 0;
void EnsureMaps() {
  if (g_maps_ready) return;
  g_maps_ready = true;
  MapAt(kArena, kArenaSize);
  MapAt(kSh, kArenaSize * 4);
  MapAt(kPc, kArenaSize * 2);
  MapAt(kShExe, kExeSize * 4);
  MapAt(kPcExe, kExeSize * 2);
  g_bump = kArena + 4096;
}

// --------------------------------------------------------------------- PRNG
struct Rng {
  uint64_t s = 0x9E3779B97F4A7C15ull;
  uint64_t Next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint64_t Below(uint64_t n) { return n ? Next() % n : 0; }
};
Rng g_rng, g_wrng, g_prng;

// ------------------------------------------------------------------- fibers
constexpr int kMaxFibers = 96;
constexpr size_t kStack = 8ull << 20;
struct VC {
  uint32_t c[kMaxFibers];
};
void Join(VC& a, const VC& b) {
  for (int i = 0; i < kMaxFibers; i++)
    if (b.c[i] > a.c[i]) a.c[i] = b.c[i];
}

struct Fiber;
constexpr int kWs = 64;
struct LoopWs {
  bool init;
  bool up;
  long next, end, incr, chunk;
  int kind;  // 1 dynamic, 2 guided
  unsigned long unext, uend, uincr, uchunk;
  int done;
  uint64_t seq;
};
struct Team {
  int n = 0;
  Fiber* member[kMaxFibers];
  Team* parent = nullptr;
  int arrived = 0;
  int arrived_final = 0;
  VC bvc;
  uint64_t single_seq = 0;
  void* copyprivate = nullptr;
  LoopWs loops[kWs];
  long ordered_next = 0;
  int level = 0, active_level = 0;
};

enum State { kIdle, kRunnable, kBlocked, kDone };
struct Fiber {
  int id = 0;
  State st = kIdle;
  void* sp = nullptr;
  char* stack = nullptr;
  char* tls = nullptr;
  unsigned char eh[16];
  VC vc;
  Team* team = nullptr;
  int tid = 0;
  uint64_t ws_seq = 0;    // singles met in this team
  uint64_t loop_seq = 0;  // run-time scheduled loops met in this team
  int icv_nthreads = 1;
  void (*fn)(void*) = nullptr;
  void* data = nullptr;
  const char* why = "";
  const void* why_pc = nullptr;
  int cur_loop = -1;
  uint64_t prio = 0;
  uint64_t stalled_until = 0;
  bool client = false;
  void (*cfn)(void*, int) = nullptr;
};
Fiber g_f[kMaxFibers];
int g_nf = 0;
Fiber* cur = nullptr;
int g_live = 1;  // fibers that are not idle
void* g_main_sp = nullptr;

Config g_cfg;
FatalFn g_fatal = nullptr;
Stats g_st;
uint64_t g_next_preempt = ~0ull;
uint64_t g_step = 0;
uint64_t g_pct_change = 0;
uint64_t g_low_prio = 1u << 30;
size_t g_tpos = 0;
bool g_in_rt = false;

int g_dyn = 0;
int g_max_active = 1;
int g_thread_limit = kMaxFibers;
int g_def_threads = 8;

TracePoint* g_trace = nullptr;
size_t g_trace_n = 0, g_trace_cap = 0;
bool g_trace_over = false;

char g_mismatch[512];

void* RawMap(size_t n) {
  void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE,
                 MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) _exit(97);
  return p;
}

// main executable's TLS block
char* g_tls_base = nullptr;
size_t g_tls_size = 0;
const char* g_tls_init = nullptr;
size_t g_tls_init_size = 0;
int PhdrCb(struct dl_phdr_info* i, size_t, void*) {
  for (int k = 0; k < i->dlpi_phnum; k++) {
    if (i->dlpi_phdr[k].p_type == PT_TLS) {
      g_tls_base = static_cast<char*>(i->dlpi_tls_data);
      g_tls_size = i->dlpi_phdr[k].p_memsz;
      g_tls_init = reinterpret_cast<char*>(i->dlpi_addr + i->dlpi_phdr[k].p_vaddr);
      g_tls_init_size = i->dlpi_phdr[k].p_filesz;
    }
  }
  return 1;  // only the executable itself
}

extern "C" void sim_switch(void** save_sp, void* new_sp);
asm(R"(
.text
.globl sim_switch
.type sim_switch,@function
sim_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  subq $8, %rsp
  stmxcsr (%rsp)
  fnstcw 4(%rsp)
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  ldmxcsr (%rsp)
  fldcw 4(%rsp)
  addq $8, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size sim_switch,.-sim_switch
)");

void SwitchTo(Fiber* f) {
  if (f == cur) return;
  Fiber* o = cur;
  g_st.switches++;
  g_st.schedule_hash = (g_st.schedule_hash ^ (g_step * 131 + f->id)) * 1099511628211ull;
  if (g_tls_size) {
    __real_memcpy(o->tls, g_tls_base, g_tls_size);
    __real_memcpy(g_tls_base, f->tls, g_tls_size);
  }
  void* eg = __cxxabiv1::__cxa_get_globals();
  __real_memcpy(o->eh, eg, 16);
  __real_memcpy(eg, f->eh, 16);
  cur = f;
  sim_switch(&o->sp, f->sp);
}

[[noreturn]] void Fatal(const char* kind, const char* detail) {
  if (g_fatal) g_fatal(kind, detail);
  _exit(96);
}

void Record(uint32_t fiber, uint32_t kind) {
  if (!g_cfg.record) return;
  if (!g_trace) {
    g_trace_cap = 32u << 20;
    g_trace = static_cast<TracePoint*>(RawMap(g_trace_cap * sizeof(TracePoint)));
  }
  if (g_trace_n == g_trace_cap) {
    g_trace_over = true;
    return;
  }
  g_trace[g_trace_n++] = TracePoint{g_step, fiber, kind};
}

void ArmPreempt() {
  switch (g_cfg.strategy) {
    case kRandom:
    case kStraggler:
    case kSprinter: {
      // geometric-ish: mixture of short and long quanta around the mean
      uint64_t m = g_cfg.mean_quantum ? g_cfg.mean_quantum : 1;
      uint64_t q = 1 + g_rng.Below(2 * m);
      if (g_rng.Below(8) == 0) q = 1 + g_rng.Below(m / 8 + 1);
      g_next_preempt = g_step + q;
      break;
    }
    case kPct:
      g_next_preempt = g_step + 1 + g_rng.Below(2ull * g_cfg.mean_quantum + 1);
      break;
    case kRoundRobin:
      g_next_preempt = g_step + g_cfg.mean_quantum + 1;
      break;
    case kReplay:
      while (g_tpos < g_cfg.trace_len && (g_cfg.trace[g_tpos].kind != 0 ||
                                          g_cfg.trace[g_tpos].step <= g_step))
        g_tpos++;
      g_next_preempt =
          g_tpos < g_cfg.trace_len ? g_cfg.trace[g_tpos].step : ~0ull;
      break;
    default:
      g_next_preempt = ~0ull;
  }
}

// position of the fiber in the innermost team (its OpenMP thread number)
Fiber* DefaultChoice() {
  for (int i = 0; i < g_nf; i++)
    if (g_f[i].st == kRunnable) return &g_f[i];
  return nullptr;
}

size_t g_cpos = 0;  // replay cursor for block choices
Fiber* Choose(bool preempt) {
  int n = 0;
  Fiber* cand[kMaxFibers];
  for (int i = 0; i < g_nf; i++)
    if (g_f[i].st == kRunnable) cand[n++] = &g_f[i];
  if (n == 0) return nullptr;
  g_st.decisions++;
  if (g_cfg.strategy == kReplay) {
    if (preempt) {
      Fiber* f = &g_f[g_cfg.trace[g_tpos].fiber % kMaxFibers];
      return f->st == kRunnable ? f : cur;
    }
    while (g_cpos < g_cfg.trace_len && (g_cfg.trace[g_cpos].kind != 1 ||
                                        g_cfg.trace[g_cpos].step < g_step))
      g_cpos++;
    if (g_cpos < g_cfg.trace_len && g_cfg.trace[g_cpos].step == g_step) {
      Fiber* f = &g_f[g_cfg.trace[g_cpos].fiber % kMaxFibers];
      if (f->st == kRunnable) return f;
    }
    return cand[0];
  }
  // injected stall: a thread loses the processor for a while
  if (g_cfg.stall_mean || g_cfg.n_directed) {
    if (g_cfg.stall_mean && g_rng.Below(g_cfg.stall_mean) == 0 && n > 1) {
      Fiber* v = cand[g_rng.Below(n)];
      v->stalled_until = g_st.decisions + 1 + g_rng.Below(400);
      g_st.stalls++;
    }
    int m = 0;
    Fiber* c2[kMaxFibers];
    for (int i = 0; i < n; i++)
      if (cand[i]->stalled_until <= g_st.decisions) c2[m++] = cand[i];
    if (m) {
      n = m;
      __real_memcpy(cand, c2, sizeof(Fiber*) * m);
    }
  }
  if (n == 1) return cand[0];
  switch (g_cfg.strategy) {
    case kPct: {
      if (preempt || g_rng.Below(64) == 0) {
        // change point: the running thread drops below everybody
        cur->prio = --g_low_prio;
      }
      Fiber* best = cand[0];
      for (int i = 1; i < n; i++)
        if (cand[i]->prio > best->prio) best = cand[i];
      return best;
    }
    case kStraggler: {
      int m = 0;
      Fiber* c2[kMaxFibers];
      for (int i = 0; i < n; i++) {
        int size = cand[i]->team ? cand[i]->team->n : 1;
        if (size == 1 || cand[i]->tid != static_cast<int>(g_cfg.victim % size))
          c2[m++] = cand[i];
      }
      if (m) return c2[g_rng.Below(m)];
      return cand[g_rng.Below(n)];
    }
    case kSprinter: {
      for (int i = 0; i < n; i++) {
        int size = cand[i]->team ? cand[i]->team->n : 1;
        if (size > 1 && cand[i]->tid == static_cast<int>(g_cfg.victim % size))
          return cand[i];
      }
      return cand[g_rng.Below(n)];
    }
    case kRoundRobin: {
      for (int i = 0; i < n; i++)
        if (cand[i]->id > cur->id) return cand[i];
      return cand[0];
    }
    default:
      return cand[g_rng.Below(n)];
  }
}

void DescribeBlocked(char* buf, size_t cap) {
  size_t p = 0;
  for (int i = 0; i < g_nf && p + 80 < cap; i++) {
    if (g_f[i].st == kBlocked)
      p += snprintf(buf + p, cap - p, "%sthread %d/%d waits at %s [pc %p]",
                    p ? "; " : "", g_f[i].tid,
                    g_f[i].team ? g_f[i].team->n : 1, g_f[i].why, g_f[i].why_pc);
  }
}

void CheckBudget() {
  if (g_cfg.max_steps && g_step > g_cfg.max_steps) {
    static char buf[4096];
    snprintf(buf, sizeof buf, "no completion within %llu simulated steps",
             (unsigned long long)g_cfg.max_steps);
    Fatal("step-budget", buf);
  }
}

// The running fiber gives up the processor (blocked, done, or voluntarily).
void Reschedule() {
  g_step++;
  CheckBudget();
  Fiber* d = DefaultChoice();
  Fiber* f = Choose(false);
  if (!f) {
    static char buf[8192];
    buf[0] = 0;
    DescribeBlocked(buf, sizeof buf);
    Fatal("deadlock", buf);
  }
  if (f != d) Record(f->id, 1);
  ArmPreempt();
  SwitchTo(f);
}

void __attribute__((noinline)) PreemptSlow() {
  CheckBudget();
  if (g_live > 1) {
    Fiber* f = Choose(true);
    if (f && f != cur) {
      g_st.preemptions++;
      Record(f->id, 0);
      ArmPreempt();
      SwitchTo(f);
      return;
    }
  }
  ArmPreempt();
}

inline void Tick() {
  if (__builtin_expect(++g_step >= g_next_preempt, 0)) PreemptSlow();
}

void Block(const char* why, const void* pc) {
  cur->st = kBlocked;
  cur->why = why;
  cur->why_pc = pc;
  Reschedule();
}

void FiberMain();
Fiber* AcquireFiber() {
  for (int i = 0; i < g_nf; i++)
    if (g_f[i].st == kIdle) return &g_f[i];
  if (g_nf == kMaxFibers) Fatal("internal", "too many simulated threads");
  Fiber* f = &g_f[g_nf];
  f->id = g_nf++;
  // stacks live in the arena so that stack variables are race-checked
  uintptr_t top = kArena + kArenaSize - kStack * (f->id + 1);
  f->stack = reinterpret_cast<char*>(top);
  f->tls = static_cast<char*>(RawMap(g_tls_size + 64));
  __real_memcpy(f->tls, g_tls_init, g_tls_init_size);
  __real_memset(f->eh, 0, 16);
  __real_memset(&f->vc, 0, sizeof f->vc);
  f->vc.c[f->id] = 1;
  f->prio = g_rng.Next() >> 2 | (1ull << 40);
  f->icv_nthreads = g_def_threads;
  // initial frame
  uint64_t* sp = reinterpret_cast<uint64_t*>(f->stack + kStack - 64);
  sp = reinterpret_cast<uint64_t*>(reinterpret_cast<uintptr_t>(sp) & ~63ull);
  *--sp = 0;                                       // fake return address
  *--sp = reinterpret_cast<uint64_t>(&FiberMain);  // ret target
  for (int i = 0; i < 6; i++) *--sp = 0;
  *--sp = 0x0000037f00001f80ull;  // mxcsr, fpu cw
  f->sp = sp;
  return f;
}

// Everybody is at the team barrier: release those inside the region, or, at
// the end of the region, the master (helpers already went idle).
void BarrierComplete(Team* t) {
  if (t->arrived_final != 0 && t->arrived_final != t->n) {
    size_t p = snprintf(g_mismatch, sizeof g_mismatch,
                        "%d of %d threads left the parallel region while the "
                        "others wait at a barrier inside it",
                        t->arrived_final, t->n);
    for (int i = 0; i < t->n; i++) {
      Fiber* f = t->member[i];
      if (f->team == t && f->why_pc && f->st == kBlocked && p + 60 < sizeof g_mismatch)
        p += snprintf(g_mismatch + p, sizeof g_mismatch - p, " [pc %p]", f->why_pc);
    }
    Fatal("barrier-mismatch", g_mismatch);
  }
  const bool final = t->arrived_final == t->n;
  t->arrived = 0;
  t->arrived_final = 0;
  for (int i = 0; i < (final ? 1 : t->n); i++) {
    Fiber* f = t->member[i];
    Join(f->vc, t->bvc);
    if (f != cur && f->st == kBlocked) f->st = kRunnable;
  }
}

void BarrierWait(Team* t, bool final, const void* pc) {
  if (!t || t->n == 1) return;
  g_st.barriers++;
  Join(t->bvc, cur->vc);
  cur->vc.c[cur->id]++;
  t->arrived++;
  if (final) t->arrived_final++;
  if (t->arrived == t->n) {
    BarrierComplete(t);
    Reschedule();
  } else {
    Block(final ? "end of parallel region" : "barrier", pc);
  }
}

void FiberMain() {
  for (;;) {
    Fiber* me = cur;
    if (me->client) {
      me->cfn(me->data, me->tid);
    } else {
      me->fn(me->data);
    }
    Team* t = me->team;
    // end of the region: arrive and go idle; only the master waits
    g_st.barriers++;
    Join(t->bvc, me->vc);
    me->vc.c[me->id]++;
    t->arrived++;
    t->arrived_final++;
    me->st = kIdle;
    me->team = nullptr;
    me->client = false;
    g_live--;
    if (t->arrived == t->n) BarrierComplete(t);
    Reschedule();
  }
}

// ---------------------------------------------------------------- race check
constexpr size_t kMaxRaces = 256;
Race g_races[kMaxRaces];
size_t g_nraces = 0;

inline uint64_t* ShadowOf(uintptr_t a, uint32_t** pc) {
  uintptr_t o = a - kArena;
  if (__builtin_expect(o < kArenaSize, 1)) {
    *pc = reinterpret_cast<uint32_t*>(kPc + (o & ~7ull) * 2);
    return reinterpret_cast<uint64_t*>(kSh + (o & ~7ull) * 4);
  }
  o = a - kExe;
  if (o < kExeSize) {
    *pc = reinterpret_cast<uint32_t*>(kPcExe + (o & ~7ull) * 2);
    return reinterpret_cast<uint64_t*>(kShExe + (o & ~7ull) * 4);
  }
  return nullptr;
}

void __attribute__((noinline)) ReportRace(uintptr_t a, uint64_t o, uint32_t pco,
                                          bool w, uintptr_t pcn) {
  uint32_t pn = static_cast<uint32_t>(pcn);
  for (size_t i = 0; i < g_nraces; i++)
    if (g_races[i].pc_new == pn && g_races[i].pc_old == pco) {
      g_races[i].count++;
      return;
    }
  if (g_nraces == kMaxRaces) return;
  g_races[g_nraces++] = Race{pn, pco, static_cast<uint32_t>(cur->id),
                             static_cast<uint32_t>(o >> 8 & 0xff),
                             static_cast<uint8_t>(w), static_cast<uint8_t>(o >> 16 & 1),
                             a, g_step, 1};
}

uint32_t g_evict = 0;
inline void Check8(uintptr_t a, uint32_t mask, bool w, bool at, uintptr_t pc) {
  uint32_t* pcs;
  uint64_t* s = ShadowOf(a, &pcs);
  if (!s) return;
  const uint64_t tid = cur->id;
  const uint64_t nv = mask | tid << 8 | uint64_t(w) << 16 | uint64_t(at) << 17 |
                      uint64_t(cur->vc.c[tid]) << 24;
  bool stored = false;
  for (int i = 0; i < 4; i++) {
    const uint64_t o = s[i];
    if (o == nv) return;
    if (o == 0) {
      if (!stored) {
        s[i] = nv;
        pcs[i] = static_cast<uint32_t>(pc);
      }
      return;
    }
    const uint32_t ot = o >> 8 & 0xff;
    const bool ow = o >> 16 & 1, oa = o >> 17 & 1;
    const uint32_t om = o & 0xff;
    bool ordered;
    if (ot == tid) {
      ordered = true;
      if ((o >> 24) == (nv >> 24) && (mask & ~om) == 0 && (ow || !w) && (!oa || at)) return;
    } else {
      if (!(om & mask)) continue;
      ordered = cur->vc.c[ot] >= (o >> 24);
      if (!ordered) {
        if (!(ow || w)) continue;
        if (oa && at) continue;
        ReportRace(a, o, pcs[i], w, pc);
        continue;
      }
    }
    if (ordered && (om & ~mask) == 0 && (w || !ow) && (!at || oa)) {
      if (!stored) {
        s[i] = nv;
        pcs[i] = static_cast<uint32_t>(pc);
        stored = true;
      }
    }
  }
  if (!stored) {
    uint32_t e = g_evict++ & 3;
    s[e] = nv;
    pcs[e] = static_cast<uint32_t>(pc);
  }
}

// Race-directed scheduling: the running thread is held back right before an
// access that was seen unordered in an earlier run, so that the others pass.
void __attribute__((noinline)) Directed(uintptr_t pc) {
  if (g_live <= 1 || g_cfg.strategy == kReplay) return;
  for (uint32_t i = 0; i < g_cfg.n_directed; i++)
    if (g_cfg.directed[i] == static_cast<uint32_t>(pc)) {
      if (g_rng.Below(2)) {
        cur->stalled_until = g_st.decisions + 1 + g_rng.Below(2000);
        g_next_preempt = 0;
      }
      return;
    }
}

inline void Access(uintptr_t a, size_t n, bool w, bool at, uintptr_t pc) {
  if (__builtin_expect(cur == nullptr, 0)) return;
  if (__builtin_expect(g_cfg.n_directed != 0, 0)) Directed(pc);
  Tick();
  g_st.accesses++;
  if (g_live <= 1 || !g_cfg.shadow) return;
  while (n) {
    uintptr_t off = a & 7;
    size_t k = 8 - off;
    if (k > n) k = n;
    Check8(a, ((1u << k) - 1) << off, w, at, pc);
    a += k;
    n -= k;
  }
}

void Range(uintptr_t a, size_t n, bool w, uintptr_t pc) {
  if (!cur || n == 0) return;
  if (__builtin_expect(g_cfg.n_directed != 0, 0)) Directed(pc);
  Tick();
  if (g_live <= 1 || !g_cfg.shadow) return;
  while (n) {
    uintptr_t off = a & 7;
    size_t k = 8 - off;
    if (k > n) k = n;
    Check8(a, ((1u << k) - 1) << off, w, false, pc);
    a += k;
    n -= k;
  }
}

// Only memory that may hold shadow values needs clearing; nothing is ever
// stored while a single thread is live, so remember if anything ever was.
void ClearShadow(uintptr_t a, size_t n) {
  if (!g_cfg.shadow || !cur) return;
  uintptr_t o = (a & ~7ull) - kArena;
  size_t len = ((a + n + 7) & ~7ull) - (a & ~7ull);
  __real_memset(reinterpret_cast<void*>(kSh + o * 4), 0, len * 4);
}

// ------------------------------------------------------------ sync variables
struct SyncVar {
  uintptr_t addr;
  VC vc;
  Fiber* owner;
  bool locked;
};
constexpr size_t kSync = 8192;
SyncVar* g_sync = nullptr;
SyncVar* Sync(uintptr_t a) {
  if (!g_sync) g_sync = static_cast<SyncVar*>(RawMap(kSync * sizeof(SyncVar)));
  size_t h = (a * 0x9E3779B97F4A7C15ull) >> 40;
  for (size_t k = 0; k < kSync; k++) {
    SyncVar* s = &g_sync[(h + k) & (kSync - 1)];
    if (s->addr == a) return s;
    if (s->addr == 0) {
      s->addr = a;
      return s;
    }
  }
  // table full: forget everything that is not locked (loses edges => only
  // possible effect would be a false report, so refuse instead)
  Fatal("internal", "sync table full");
}

void LockAcquire(uintptr_t a, const char* why, const void* pc) {
  SyncVar* s = Sync(a);
  Tick();
  while (s->locked) Block(why, pc);
  s->locked = true;
  s->owner = cur;
  Join(cur->vc, s->vc);
}
bool LockTry(uintptr_t a) {
  SyncVar* s = Sync(a);
  Tick();
  if (s->locked) return false;
  s->locked = true;
  s->owner = cur;
  Join(cur->vc, s->vc);
  return true;
}
void LockRelease(uintptr_t a, const char* why) {
  SyncVar* s = Sync(a);
  Join(s->vc, cur->vc);
  cur->vc.c[cur->id]++;
  s->locked = false;
  s->owner = nullptr;
  for (int i = 0; i < g_nf; i++)
    if (g_f[i].st == kBlocked && g_f[i].why == why) g_f[i].st = kRunnable;
  g_step++;
  if (g_live > 1) {
    // a release is a scheduling opportunity
    if (g_cfg.strategy != kReplay && g_cfg.strategy != kRunToBlock &&
        g_rng.Below(4) == 0)
      g_next_preempt = g_step + 1;
  }
}
char g_crit_default;
const char kWhyCrit[] = "critical section";
const char kWhyMutex[] = "mutex";
const char kWhyGuard[] = "static initialisation";

void AtomicHb(uintptr_t a, int mo, bool load, bool store) {
  g_st.atomics++;
  bool acq = load && (mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME ||
                      mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST);
  bool rel = store && (mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL ||
                       mo == __ATOMIC_SEQ_CST);
  if (!acq && !rel) return;
  if (!g_cfg.shadow) return;
  SyncVar* s = Sync(a);
  if (acq) Join(cur->vc, s->vc);
  if (rel) {
    Join(s->vc, cur->vc);
    cur->vc.c[cur->id]++;
  }
}

}  // namespace

// ------------------------------------------------------------------- public
void Configure(const Config& c) {
  g_cfg = c;
  g_rng.s = c.seed * 0x2545F4914F6CDD1Dull + 11;
  g_wrng.s = c.seed * 0x9E3779B97F4A7C15ull + 77;
  g_prng.s = c.seed * 0xD1342543DE82EF95ull + 5;
}
void SetFatal(FatalFn f) { g_fatal = f; }
uint64_t Rand(uint64_t bound) { return g_wrng.Below(bound); }
const Stats& GetStats() {
  g_st.steps = g_step;
  return g_st;
}
const Race* Races(size_t* n) {
  *n = g_nraces;
  return g_races;
}
const TracePoint* Trace(size_t* n) {
  *n = g_trace_over ? 0 : g_trace_n;
  return g_trace;
}
const char* BarrierMismatch() { return g_mismatch; }
int CurrentThreadNum() { return cur ? cur->tid : 0; }
int CurrentFiber() { return cur ? cur->id : 0; }
bool MultiFiber() { return g_live > 1; }

namespace {
struct MainArg {
  void (*fn)(void*);
  void* arg;
} g_main;
void MainFiber(void*, int) {
  g_main.fn(g_main.arg);
  // leave for good: back to the OS stack
  void* dummy;
  sim_switch(&dummy, g_main_sp);
}
}  // namespace

void RunMain(void (*fn)(void*), void* arg) {
  EnsureMaps();
  dl_iterate_phdr(PhdrCb, nullptr);
  g_main = {fn, arg};
  Fiber* f = AcquireFiber();
  f->st = kRunnable;
  f->client = true;
  f->cfn = MainFiber;
  f->tid = 0;
  g_live = 1;
  cur = f;
  // the main fiber keeps the process' TLS contents
  ArmPreempt();
  sim_switch(&g_main_sp, f->sp);
  cur = nullptr;
}

namespace {
struct ClientTeam {
  void (*fn)(void*, int);
  void* arg;
};
ClientTeam g_clients;
}  // namespace

void RunClients(int n, void (*fn)(void*, int), void* arg) {
  // independent caller threads: each starts with no enclosing team
  Team* t = new Team();
  t->n = n + 1;
  t->member[0] = cur;
  Team* saved = cur->team;
  for (int i = 0; i < n; i++) {
    Fiber* f = AcquireFiber();
    f->st = kRunnable;
    f->client = true;
    f->cfn = fn;
    f->data = arg;
    f->tid = i;
    f->team = t;
    f->icv_nthreads = g_def_threads;
    f->ws_seq = 0;
    Join(f->vc, cur->vc);
    f->vc.c[f->id]++;
    t->member[i + 1] = f;
    g_live++;
  }
  cur->vc.c[cur->id]++;
  t->level = -1;
  cur->team = t;
  BarrierWait(t, true, nullptr);
  cur->team = saved;
}

}  // namespace sim

using namespace sim;

// A client fiber's "team" is only its join group: OpenMP must not see it.
static inline Team* OmpTeam() {
  Team* t = cur ? cur->team : nullptr;
  return (t && t->level >= 0) ? t : nullptr;
}

#define PC reinterpret_cast<uintptr_t>(__builtin_return_address(0))
#define EXPORT extern "C" __attribute__((visibility("default"), used))

// ============================================================ OpenMP runtime
static void Parallel(void (*fn)(void*), void* data, unsigned nt) {
  g_st.parallels++;
  Team* outer = OmpTeam();
  Fiber* me = cur;
  int n = nt ? static_cast<int>(nt) : me->icv_nthreads;
  int active = outer ? outer->active_level : 0;
  if (active >= g_max_active) n = 1;
  if (n > 48) n = 48;
  if (n < 1) n = 1;
  Team* saved_team = me->team;
  int saved_tid = me->tid;
  uint64_t saved_ws = me->ws_seq, saved_lseq = me->loop_seq;
  int saved_loop = me->cur_loop;
  Team* t = new Team();
  t->n = n;
  __real_memset(&t->bvc, 0, sizeof t->bvc);
  __real_memset(t->loops, 0, sizeof t->loops);
  t->parent = outer;
  t->level = (outer ? outer->level : 0) + 1;
  t->active_level = active + (n > 1 ? 1 : 0);
  if (n > 1 && active > 0) g_st.nested++;
  if (static_cast<uint64_t>(n) > g_st.max_team) g_st.max_team = n;
  t->member[0] = me;
  for (int i = 1; i < n; i++) {
    Fiber* f = AcquireFiber();
    f->st = kRunnable;
    f->client = false;
    f->fn = fn;
    f->data = data;
    f->team = t;
    f->tid = i;
    f->ws_seq = 0;
    f->loop_seq = 0;
    f->cur_loop = -1;
    f->icv_nthreads = me->icv_nthreads;
    f->stalled_until = 0;
    Join(f->vc, me->vc);
    f->vc.c[f->id]++;
    t->member[i] = f;
    g_live++;
  }
  me->vc.c[me->id]++;
  me->team = t;
  me->tid = 0;
  me->ws_seq = 0;
  me->loop_seq = 0;
  me->cur_loop = -1;
  if (n > 1) Reschedule();
  fn(data);
  BarrierWait(t, true, nullptr);
  me = cur;
  me->team = saved_team;
  me->tid = saved_tid;
  me->ws_seq = saved_ws;
  me->loop_seq = saved_lseq;
  me->cur_loop = saved_loop;
  delete t;
}

EXPORT void GOMP_parallel(void (*fn)(void*), void* data, unsigned nt, unsigned) {
  Parallel(fn, data, nt);
}
EXPORT unsigned GOMP_parallel_reductions(void (*fn)(void*), void* data, unsigned nt, unsigned) {
  Parallel(fn, data, nt);
  return nt;
}
EXPORT void GOMP_barrier() {
  BarrierWait(OmpTeam(), false, __builtin_return_address(0));
}
EXPORT bool GOMP_barrier_cancel() {
  BarrierWait(OmpTeam(), false, __builtin_return_address(0));
  return false;
}
EXPORT bool GOMP_single_start() {
  g_st.singles++;
  Tick();
  Team* t = OmpTeam();
  if (!t || t->n == 1) return true;
  uint64_t mine = cur->ws_seq++;
  if (t->single_seq == mine) {
    t->single_seq = mine + 1;
    return true;
  }
  return false;
}
EXPORT void* GOMP_single_copy_start() {
  if (GOMP_single_start()) return nullptr;
  GOMP_barrier();
  return OmpTeam()->copyprivate;
}
EXPORT void GOMP_single_copy_end(void* d) {
  Team* t = OmpTeam();
  if (t) t->copyprivate = d;
  GOMP_barrier();
}
EXPORT void GOMP_critical_start() {
  g_st.criticals++;
  LockAcquire(reinterpret_cast<uintptr_t>(&g_crit_default), kWhyCrit, __builtin_return_address(0));
}
EXPORT void GOMP_critical_end() {
  LockRelease(reinterpret_cast<uintptr_t>(&g_crit_default), kWhyCrit);
  Tick();
}
EXPORT void GOMP_critical_name_start(void** p) {
  g_st.criticals++;
  LockAcquire(reinterpret_cast<uintptr_t>(p), kWhyCrit, __builtin_return_address(0));
}
EXPORT void GOMP_critical_name_end(void** p) {
  LockRelease(reinterpret_cast<uintptr_t>(p), kWhyCrit);
  Tick();
}
static char g_atomic_lock;
EXPORT void GOMP_atomic_start() {
  LockAcquire(reinterpret_cast<uintptr_t>(&g_atomic_lock), kWhyCrit, __builtin_return_address(0));
}
EXPORT void GOMP_atomic_end() {
  LockRelease(reinterpret_cast<uintptr_t>(&g_atomic_lock), kWhyCrit);
}

// ---- worksharing loops with a run-time schedule (static ones are inlined)
static LoopWs* LoopFor(Team* t, uint64_t seq) {
  LoopWs* l = &t->loops[seq % kWs];
  if (!l->init || l->seq != seq) {
    __real_memset(l, 0, sizeof *l);
    l->seq = seq;
    l->init = true;
    l->kind = -1;
  }
  return l;
}
static Team g_serial_team;
static bool LoopNext(long* a, long* b) {
  Team* t = OmpTeam() ? OmpTeam() : &g_serial_team;
  LoopWs* l = &t->loops[cur->cur_loop % kWs];
  Tick();
  if (l->incr > 0 ? l->next >= l->end : l->next <= l->end) return false;
  long left = l->incr > 0 ? (l->end - l->next + l->incr - 1) / l->incr
                          : (l->end - l->next + l->incr + 1) / l->incr;
  long q = l->chunk > 0 ? l->chunk : 1;
  if (l->kind == 2) {
    long g = (left + t->n - 1) / t->n;
    if (g > q) q = g;
  }
  if (q > left) q = left;
  *a = l->next;
  l->next += q * l->incr;
  *b = l->next;
  if (l->incr > 0 ? *b > l->end : *b < l->end) *b = l->end;
  if (cur->team && g_live > 1) g_next_preempt = g_step + 1;
  return true;
}
static bool LoopStart(int kind, long start, long end, long incr, long chunk,
                      long* a, long* b) {
  Team* t = OmpTeam() ? OmpTeam() : &g_serial_team;
  if (t == &g_serial_team) t->n = 1;
  uint64_t seq = cur->loop_seq++;
  LoopWs* l = LoopFor(t, seq);
  if (l->kind == -1) {
    l->kind = kind;
    l->next = start;
    l->end = end;
    l->incr = incr;
    l->chunk = chunk;
    if (kind == 0) {  // static, via the runtime: deal as one chunk per thread
      l->kind = 1;
      if (chunk <= 0) {
        long left = incr > 0 ? (end - start + incr - 1) / incr : (end - start + incr + 1) / incr;
        l->chunk = (left + t->n - 1) / t->n;
        if (l->chunk < 1) l->chunk = 1;
      }
    }
  }
  cur->cur_loop = static_cast<int>(seq % kWs);
  if (!a) return true;
  return LoopNext(a, b);
}
#define LOOPS(NAME, KIND)                                                     \
  EXPORT bool GOMP_loop_##NAME##_start(long s, long e, long i, long c, long* a, long* b) { \
    return LoopStart(KIND, s, e, i, c, a, b);                                 \
  }                                                                           \
  EXPORT bool GOMP_loop_##NAME##_next(long* a, long* b) { return LoopNext(a, b); } \
  struct ParLoop_##NAME { void (*fn)(void*); void* data; long s, e, i, c; };  \
  static void ParLoopRun_##NAME(void* p) {                                    \
    auto* x = static_cast<ParLoop_##NAME*>(p);                                \
    LoopStart(KIND, x->s, x->e, x->i, x->c, nullptr, nullptr);                \
    x->fn(x->data);                                                           \
  }                                                                           \
  EXPORT void GOMP_parallel_loop_##NAME(void (*fn)(void*), void* d, unsigned nt, \
                                        long s, long e, long i, long c, unsigned) { \
    ParLoop_##NAME x{fn, d, s, e, i, c};                                      \
    Parallel(ParLoopRun_##NAME, &x, nt);                                      \
  }
LOOPS(static, 0)
LOOPS(dynamic, 1)
LOOPS(guided, 2)
LOOPS(nonmonotonic_dynamic, 1)
LOOPS(nonmonotonic_guided, 2)
#define LOOPS_RT(NAME)                                                        \
  EXPORT bool GOMP_loop_##NAME##_start(long s, long e, long i, long* a, long* b) { \
    return LoopStart(1, s, e, i, 1, a, b);                                    \
  }                                                                           \
  EXPORT bool GOMP_loop_##NAME##_next(long* a, long* b) { return LoopNext(a, b); } \
  struct ParLoop_##NAME { void (*fn)(void*); void* data; long s, e, i; };     \
  static void ParLoopRun_##NAME(void* p) {                                    \
    auto* x = static_cast<ParLoop_##NAME*>(p);                                \
    LoopStart(1, x->s, x->e, x->i, 1, nullptr, nullptr);                      \
    x->fn(x->data);                                                           \
  }                                                                           \
  EXPORT void GOMP_parallel_loop_##NAME(void (*fn)(void*), void* d, unsigned nt, \
                                        long s, long e, long i, unsigned) {   \
    ParLoop_##NAME x{fn, d, s, e, i};                                         \
    Parallel(ParLoopRun_##NAME, &x, nt);                                      \
  }
LOOPS_RT(runtime)
LOOPS_RT(maybe_nonmonotonic_runtime)
LOOPS_RT(nonmonotonic_runtime)
EXPORT void GOMP_loop_end() { GOMP_barrier(); }
EXPORT void GOMP_loop_end_nowait() {}
EXPORT bool GOMP_loop_end_cancel() { GOMP_barrier(); return false; }
// sections = dynamic loop over 1..n
EXPORT unsigned GOMP_sections_start(unsigned n) {
  long a, b;
  return LoopStart(1, 1, n + 1, 1, 1, &a, &b) ? a : 0;
}
EXPORT unsigned GOMP_sections_next() {
  long a, b;
  return LoopNext(&a, &b) ? a : 0;
}
struct ParSec { void (*fn)(void*); void* data; unsigned n; };
static void ParSecRun(void* p) {
  auto* x = static_cast<ParSec*>(p);
  LoopStart(1, 1, x->n + 1, 1, 1, nullptr, nullptr);
  x->fn(x->data);
}
EXPORT void GOMP_parallel_sections(void (*fn)(void*), void* d, unsigned nt, unsigned n, unsigned) {
  ParSec x{fn, d, n};
  Parallel(ParSecRun, &x, nt);
}
EXPORT void GOMP_sections_end() { GOMP_barrier(); }
EXPORT void GOMP_sections_end_nowait() {}
// tasks run immediately in the encountering thread (a legal schedule)
EXPORT void GOMP_task(void (*fn)(void*), void* data, void (*cpyfn)(void*, void*),
                      long arg_size, long arg_align, bool, unsigned, void**, int, void*) {
  if (cpyfn) {
    char buf[arg_size + arg_align - 1];
    char* arg = reinterpret_cast<char*>((reinterpret_cast<uintptr_t>(buf) + arg_align - 1) & ~(uintptr_t)(arg_align - 1));
    cpyfn(arg, data);
    fn(arg);
  } else {
    fn(data);
  }
}
EXPORT void GOMP_taskwait() {}
EXPORT void GOMP_taskyield() { Tick(); }
EXPORT void GOMP_taskgroup_start() {}
EXPORT void GOMP_taskgroup_end() {}
EXPORT bool GOMP_cancel(int, bool) { return false; }
EXPORT bool GOMP_cancellation_point(int) { return false; }

EXPORT int omp_get_thread_num() { return OmpTeam() ? cur->tid : 0; }
EXPORT int omp_get_num_threads() { return OmpTeam() ? OmpTeam()->n : 1; }
EXPORT int omp_get_max_threads() { return cur ? cur->icv_nthreads : g_def_threads; }
EXPORT void omp_set_num_threads(int n) {
  if (cur) cur->icv_nthreads = n > 0 ? n : 1;
}
EXPORT int omp_get_num_procs() { return g_def_threads; }
EXPORT int omp_in_parallel() { return OmpTeam() && OmpTeam()->active_level > 0; }
EXPORT void omp_set_dynamic(int v) { g_dyn = v; }
EXPORT int omp_get_dynamic() { return g_dyn; }
EXPORT void omp_set_nested(int v) { g_max_active = v ? 1 << 20 : 1; }
EXPORT int omp_get_nested() { return g_max_active > 1; }
EXPORT void omp_set_max_active_levels(int v) { g_max_active = v; }
EXPORT int omp_get_max_active_levels() { return g_max_active; }
EXPORT int omp_get_level() { return OmpTeam() ? OmpTeam()->level : 0; }
EXPORT int omp_get_active_level() { return OmpTeam() ? OmpTeam()->active_level : 0; }
EXPORT int omp_get_thread_limit() { return 1 << 20; }
EXPORT int omp_get_ancestor_thread_num(int) { return 0; }
EXPORT int omp_get_team_size(int) { return omp_get_num_threads(); }
EXPORT int omp_in_final() { return 0; }
EXPORT double omp_get_wtime() { return g_step * 1e-9; }
EXPORT double omp_get_wtick() { return 1e-9; }
EXPORT void omp_set_schedule(int, int) {}
EXPORT void omp_init_lock(void* l) { *static_cast<int*>(l) = 0; }
EXPORT void omp_destroy_lock(void*) {}
EXPORT void omp_set_lock(void* l) { LockAcquire(reinterpret_cast<uintptr_t>(l), kWhyMutex, __builtin_return_address(0)); }
EXPORT void omp_unset_lock(void* l) { LockRelease(reinterpret_cast<uintptr_t>(l), kWhyMutex); }
EXPORT int omp_test_lock(void* l) { return LockTry(reinterpret_cast<uintptr_t>(l)); }

// ================================================== mutexes, static guards
EXPORT int __real_pthread_mutex_lock(pthread_mutex_t*);
EXPORT int __real_pthread_mutex_unlock(pthread_mutex_t*);
EXPORT int __wrap_pthread_mutex_lock(pthread_mutex_t* m) {
  if (!cur) return 0;
  g_st.mutexes++;
  LockAcquire(reinterpret_cast<uintptr_t>(m), kWhyMutex, __builtin_return_address(0));
  return 0;
}
EXPORT int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) {
  if (!cur) return 0;
  return LockTry(reinterpret_cast<uintptr_t>(m)) ? 0 : EBUSY;
}
EXPORT int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) {
  if (!cur) return 0;
  LockRelease(reinterpret_cast<uintptr_t>(m), kWhyMutex);
  return 0;
}
EXPORT int __wrap___cxa_guard_acquire(uint64_t* g) {
  char* done = reinterpret_cast<char*>(g);
  if (!cur) {
    return *done == 0;
  }
  SyncVar* s = Sync(reinterpret_cast<uintptr_t>(g));
  for (;;) {
    if (*done) {
      Join(cur->vc, s->vc);
      return 0;
    }
    if (!s->locked) {
      s->locked = true;
      s->owner = cur;
      return 1;
    }
    Block(kWhyGuard, __builtin_return_address(0));
  }
}
EXPORT void __wrap___cxa_guard_release(uint64_t* g) {
  *reinterpret_cast<char*>(g) = 1;
  if (cur) LockRelease(reinterpret_cast<uintptr_t>(g), kWhyGuard);
}
EXPORT void __wrap___cxa_guard_abort(uint64_t* g) {
  if (cur) LockRelease(reinterpret_cast<uintptr_t>(g), kWhyGuard);
}

// ====================================================== compiler instrumentation
EXPORT void __tsan_init() {}
EXPORT void __tsan_func_entry(void*) {}
EXPORT void __tsan_func_exit() {}
#define RW(N)                                                                \
  EXPORT void __tsan_read##N(void* p) { Access((uintptr_t)p, N, false, false, PC); } \
  EXPORT void __tsan_write##N(void* p) { Access((uintptr_t)p, N, true, false, PC); } \
  EXPORT void __tsan_volatile_read##N(void* p) { Access((uintptr_t)p, N, false, false, PC); } \
  EXPORT void __tsan_volatile_write##N(void* p) { Access((uintptr_t)p, N, true, false, PC); } \
  EXPORT void __tsan_unaligned_read##N(void* p) { Access((uintptr_t)p, N, false, false, PC); } \
  EXPORT void __tsan_unaligned_write##N(void* p) { Access((uintptr_t)p, N, true, false, PC); } \
  EXPORT void __tsan_unaligned_volatile_read##N(void* p) { Access((uintptr_t)p, N, false, false, PC); } \
  EXPORT void __tsan_unaligned_volatile_write##N(void* p) { Access((uintptr_t)p, N, true, false, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
EXPORT void __tsan_read_range(void* p, size_t n) { Range((uintptr_t)p, n, false, PC); }
EXPORT void __tsan_write_range(void* p, size_t n) { Range((uintptr_t)p, n, true, PC); }
EXPORT void __tsan_vptr_update(void** p, void* v) {
  if (*p != v) Access((uintptr_t)p, 8, true, false, PC);
}
EXPORT void __tsan_vptr_read(void** p) { Access((uintptr_t)p, 8, false, false, PC); }

#define ATOMICS(B, T)                                                          \
  EXPORT T __tsan_atomic##B##_load(const volatile T* a, int mo) {              \
    Access((uintptr_t)a, sizeof(T), false, true, PC);                          \
    if (cur) AtomicHb((uintptr_t)a, mo, true, false);                          \
    return *a;                                                                 \
  }                                                                            \
  EXPORT void __tsan_atomic##B##_store(volatile T* a, T v, int mo) {           \
    Access((uintptr_t)a, sizeof(T), true, true, PC);                           \
    if (cur) AtomicHb((uintptr_t)a, mo, false, true);                          \
    *a = v;                                                                    \
  }                                                                            \
  EXPORT T __tsan_atomic##B##_exchange(volatile T* a, T v, int mo) {           \
    Access((uintptr_t)a, sizeof(T), true, true, PC);                           \
    if (cur) AtomicHb((uintptr_t)a, mo, true, true);                           \
    T o = *a; *a = v; return o;                                                \
  }                                                                            \
  EXPORT T __tsan_atomic##B##_fetch_add(volatile T* a, T v, int mo) {          \
    Access((uintptr_t)a, sizeof(T), true, true, PC);                           \
    if (cur) AtomicHb((uintptr_t)a, mo, true, true);                           \
    T o = *a; *a = o + v; return o;                                            \
  }                                                                            \
  EXPORT T __tsan_atomic##B##_fetch_sub(volatile T* a, T v, int mo) {          \
    Access((uintptr_t)a, sizeof(T), true, true, PC);                           \
    if (cur) AtomicHb((uintptr_t)a, mo, true, true);                           \
    T o = *a; *a = o - v; return o;                                            \
  }                                                                            \
  EXPORT T __tsan_atomic##B##_fetch_and(volatile T* a, T v, int mo) {          \
    Access((uintptr_t)a, sizeof(T), true, true, PC);                           \
    if (cur) AtomicHb((uintptr_t)a, mo, true, true);                           \
    T o = *a; *a = o & v; return o;                                            \
  }                                                                            \
  EXPORT T __tsan_atomic##B##_fetch_or(volatile T* a, T v, int mo) {           \
    Access((uintptr_t)a, sizeof(T), true, true, PC);                           \
    if (cur) AtomicHb((uintptr_t)a, mo, true, true);                           \
    T o = *a; *a = o | v; return o;                                            \
  }                                                                            \
  EXPORT T __tsan_atomic##B##_fetch_xor(volatile T* a, T v, int mo) {          \
    Access((uintptr_t)a, sizeof(T), true, true, PC);                           \
    if (cur) AtomicHb((uintptr_t)a, mo, true, true);                           \
    T o = *a; *a = o ^ v; return o;                                            \
  }                                                                            \
  EXPORT int __tsan_atomic##B##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int) { \
    Access((uintptr_t)a, sizeof(T), true, true, PC);                           \
    if (cur) AtomicHb((uintptr_t)a, mo, true, true);                           \
    if (*a == *c) { *a = v; return 1; }                                        \
    *c = *a; return 0;                                                         \
  }                                                                            \
  EXPORT int __tsan_atomic##B##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int f) { \
    return __tsan_atomic##B##_compare_exchange_strong(a, c, v, mo, f);         \
  }                                                                            \
  EXPORT T __tsan_atomic##B##_compare_exchange_val(volatile T* a, T c, T v, int mo, int f) { \
    __tsan_atomic##B##_compare_exchange_strong(a, &c, v, mo, f);               \
    return c;                                                                  \
  }
ATOMICS(8, uint8_t)
ATOMICS(16, uint16_t)
ATOMICS(32, uint32_t)
ATOMICS(64, uint64_t)
EXPORT void __tsan_atomic_thread_fence(int) {}
EXPORT void __tsan_atomic_signal_fence(int) {}

// string functions called by instrumented code
EXPORT void* __wrap_memcpy(void* d, const void* s, size_t n) {
  Range((uintptr_t)s, n, false, PC);
  Range((uintptr_t)d, n, true, PC);
  return __real_memcpy(d, s, n);
}
EXPORT void* __wrap_memmove(void* d, const void* s, size_t n) {
  Range((uintptr_t)s, n, false, PC);
  Range((uintptr_t)d, n, true, PC);
  return __real_memmove(d, s, n);
}
EXPORT void* __wrap_memset(void* d, int c, size_t n) {
  Range((uintptr_t)d, n, true, PC);
  return __real_memset(d, c, n);
}
// LAPACK is a real library without instrumentation: declare its footprint.
EXPORT void __real_dgetrf_(int*, int*, double*, int*, int*, int*);
EXPORT void __wrap_dgetrf_(int* m, int* n, double* a, int* lda, int* ip, int* info) {
  if (cur) {
    Range((uintptr_t)a, sizeof(double) * (size_t)*lda * *n, true, PC);
    Range((uintptr_t)ip, sizeof(int) * (size_t)(*m < *n ? *m : *n), true, PC);
    Range((uintptr_t)info, sizeof(int), true, PC);
  }
  __real_dgetrf_(m, n, a, lda, ip, info);
}
EXPORT void __real_dgetrs_(const char*, int*, int*, double*, int*, int*, double*, int*, int*, size_t);
EXPORT void __wrap_dgetrs_(const char* t, int* n, int* nrhs, double* a, int* lda,
                           int* ip, double* b, int* ldb, int* info, size_t l) {
  if (cur) {
    Range((uintptr_t)a, sizeof(double) * (size_t)*lda * *n, false, PC);
    Range((uintptr_t)ip, sizeof(int) * (size_t)*n, false, PC);
    Range((uintptr_t)b, sizeof(double) * (size_t)*ldb * *nrhs, true, PC);
    Range((uintptr_t)info, sizeof(int), true, PC);
  }
  __real_dgetrs_(t, n, nrhs, a, lda, ip, b, ldb, info, l);
}

// ============================================================== allocator
// Deterministic: addresses depend only on the sequence of requests.
namespace {
struct Hdr {
  uint64_t size;   // usable size
  uint32_t cls;    // size class, ~0u for large
  uint32_t magic;  // guards against foreign pointers
};
constexpr uint32_t kMagic = 0x51A110Cu;
constexpr int kClasses = 100;
struct FreeNode {
  FreeNode* next;
};
FreeNode* g_free[kClasses];
size_t g_inuse = 0;
uint64_t ClassSize(int c) {
  // 16,32,48,64, then 4 classes per power of two
  if (c < 4) return 16ull * (c + 1);
  int p = (c - 4) / 4, q = (c - 4) % 4;
  return (64ull << p) + (16ull << p) * (q + 1);
}
int ClassOf(uint64_t n) {
  if (n <= 64) return n ? (int)((n + 15) / 16) - 1 : 0;
  int c = 4;
  while (c < kClasses && ClassSize(c) < n) c++;
  return c;
}
bool InArena(const void* p) {
  return (uintptr_t)p - kArena < kArenaSize;
}
void Poison(void* p, size_t n) {
  // either small noise, huge values or NaN patterns; whole block same flavour
  uint64_t r = g_prng.Next();
  uint64_t v;
  switch (r & 3) {
    case 0: v = 0x7ff8dead0000beefull; break;   // NaN
    case 1: v = 0x7fe1234512345123ull; break;   // ~1e307
    case 2: v = 0x3ff5555500000000ull | (r >> 34); break;  // ~1.33
    default: v = 0xc08f400000000000ull | (r >> 40); break; // ~-1000
  }
  uint64_t* q = static_cast<uint64_t*>(p);
  for (size_t i = 0; i < n / 8; i++) q[i] = v;
}
void* Alloc(size_t n, size_t align) {
  EnsureMaps();
  if (n > (4ull << 30)) return nullptr;
  int c = ClassOf(n);
  size_t usable = c < kClasses ? ClassSize(c) : ((n + 4095) & ~4095ull);
  void* p = nullptr;
  if (align <= 16 && c < kClasses && g_free[c]) {
    p = g_free[c];
    g_free[c] = g_free[c]->next;
  } else {
    if (align < 16) align = 16;
    uintptr_t a = (g_bump + sizeof(Hdr) + align - 1) & ~(uintptr_t)(align - 1);
    if (a + usable > kArena + kArenaSize - kStack * kMaxFibers) return nullptr;
    g_bump = a + usable;
    p = reinterpret_cast<void*>(a);
  }
  Hdr* h = reinterpret_cast<Hdr*>(p) - 1;
  h->size = usable;
  h->cls = c < kClasses ? c : ~0u;
  h->magic = kMagic;
  g_inuse += usable;
  ClearShadow((uintptr_t)p, usable);
  if (g_cfg.poison) Poison(p, usable);
  return p;
}
extern "C" void __libc_free(void*);
extern "C" void* __libc_realloc(void*, size_t);
void Free(void* p, uintptr_t pc) {
  if (!p) return;
  if (!InArena(p)) {
    __libc_free(p);
    return;
  }
  Hdr* h = reinterpret_cast<Hdr*>(p) - 1;
  if (h->magic != kMagic) Fatal("heap", "invalid or repeated free");
  if (cur && g_live > 1 && g_cfg.shadow) Range((uintptr_t)p, h->size, true, pc);
  h->magic = 0;
  g_inuse -= h->size;
  if (h->cls != ~0u) {
    FreeNode* f = static_cast<FreeNode*>(p);
    f->next = g_free[h->cls];
    g_free[h->cls] = f;
  }
}
}  // namespace
size_t sim::HeapInUse() { return g_inuse; }

EXPORT void* malloc(size_t n) { return Alloc(n, 16); }
EXPORT void free(void* p) { Free(p, PC); }
EXPORT void* calloc(size_t a, size_t b) {
  size_t n;
  if (__builtin_mul_overflow(a, b, &n)) return nullptr;
  void* p = Alloc(n, 16);
  if (p) __real_memset(p, 0, n);
  return p;
}
EXPORT void* realloc(void* p, size_t n) {
  if (!p) return Alloc(n, 16);
  if (!InArena(p)) return __libc_realloc(p, n);
  Hdr* h = reinterpret_cast<Hdr*>(p) - 1;
  if (n <= h->size && n) return p;
  void* q = Alloc(n, 16);
  if (!q) return nullptr;
  __real_memcpy(q, p, h->size < n ? h->size : n);
  Free(p, PC);
  return q;
}
EXPORT void* memalign(size_t al, size_t n) { return Alloc(n, al); }
EXPORT void* aligned_alloc(size_t al, size_t n) { return Alloc(n, al); }
EXPORT int posix_memalign(void** o, size_t al, size_t n) {
  void* p = Alloc(n, al);
  if (!p) return ENOMEM;
  *o = p;
  return 0;
}
EXPORT size_t malloc_usable_size(void* p) {
  return p && InArena(p) ? (reinterpret_cast<Hdr*>(p) - 1)->size : 0;
}
