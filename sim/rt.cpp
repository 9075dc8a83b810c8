#include "rt.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <csignal>
#include <csetjmp>
#include <new>
#include <map>
#include <exception>
#include <cxxabi.h>
#include <mutex>
#include <link.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>
#include <pthread.h>
#include <errno.h>
#include <time.h>
namespace sim {
const char* FAULT_NAME[FK_N] = {"team_shrunk", "worker_stall", "worker_late_start", "call_abandoned", "alloc_failure", "poisoned_unread_cells"};
const char* POLICY_NAME[P_N] = {"sequential", "reverse", "random_run_to_block", "random_preempt", "pct", "round_robin", "starve_one"};

// ------------------------------------------------------------------ fibers
extern "C" void sim_switch(void** save, void* to);
asm(R"(.text
.globl sim_switch
.hidden sim_switch
.type sim_switch,@function
sim_switch:
 pushq %rbp
 pushq %rbx
 pushq %r12
 pushq %r13
 pushq %r14
 pushq %r15
 movq %rsp,(%rdi)
 movq %rsi,%rsp
 popq %r15
 popq %r14
 popq %r13
 popq %r12
 popq %rbx
 popq %rbp
 ret
.size sim_switch,.-sim_switch
)");
enum St : u8 { FREE, RUN, BLOCK, STALL };
struct Team;
struct Fiber { St st = FREE; void* sp = nullptr; int tid = 0, caller = 0, idx = 0; Team* team = nullptr; void* wait = nullptr; u64 wake = 0; u64 callid = 0;
  void (*entry)(Fiber*) = nullptr; void* fn = nullptr; void* arg = nullptr; u32* vc = nullptr; u32 prio = 0; u8* tls = nullptr;
  Team* own = nullptr; bool waslate = false; void* once0 = nullptr; void (*once1)() = nullptr; u64 eh[2] = {0, 0}; u32 mx = 0x1f80; u16 cw = 0x37f; };
struct Team { int n = 1, caller = 0; u64 callid = 0; int remaining = 0; int level = 0; u64 arrive[4] = {}; int bar_cnt = 0; u64 bar_gen = 0; u32 barvc[MAXT]; u32 single_gen = 0; void* copyp = nullptr;
  Team* parent = nullptr; int parent_idx = 0; u32 ws_cnt[MAXTEAM] = {}; struct WS { bool init = false; int done = 0; long next = 0, end = 0, incr = 1, chunk = 1; int kind = 0; int claimed = 0; long sect = 0; u32 gen = 0; }; std::vector<WS> ws;
  struct Task { void (*fn)(void*); void* data; void* buf; u32 vc[MAXT]; }; std::vector<Task*> tasks; int nrun = 0; };
static Fiber fib[MAXT];
static Fiber* cur = nullptr;
static void* main_sp; static bool running = false;
static std::vector<Team*> teams;
static u32 vcs[MAXT][MAXT];
static const Config* cfg; static Result* res;
static u64 step, clock_off, next_ev;
static u64 callctr[MAXCALL]; static bool incall[MAXCALL]; static u64 callid_ctr;
static u64 hashv, last_sw_step;
static std::function<void(int)> body_fn, crash_fn;
static int nth_icv[MAXCALL];
static u64 region_ctr;
static Rng srng;
static size_t dec_i;
static u64 next_dec_step;      // for generated preemption
static u64 slice_mean;
static std::vector<u64> pct_points; static size_t pct_i; static int starve_tid; static u32 prio_low;
struct FaultSt { Fault f; bool done; };
static std::vector<FaultSt> faults;
static int flags; static bool xonly; static u64 tail_at; static volatile int mode = 0; // 0 off, 1 ref, 2 sim
static u64 nextwake;
struct Live { u64 n; int caller; };
static u64 alloc_ctr, call_alloc_ctr, live_ctr[MAXCALL + 1]; static std::map<u64, Live> live;
static u64 heap_junk = HEAP; static u64 heap_top, heap_hi, heap_shhi; static u64 atop[NSEG], ahi[NSEG], ashhi[NSEG]; static u64 stklow[MAXT];
static int xtid_next;

static inline u64 nowt() { return step + clock_off; }
u64 now() { return nowt(); }
bool in_run() { return running && cur; }

// ------------------------------------------------------------------ shadow
struct Cell { u32 wclk; u16 wtid; u8 wmask, rmask; u32 rclk; u16 rtid; u16 rsh; };
static Cell *sh_arena, *sh_heap, *sh_stk, *sh_data; static u8 *gs_arena, *gs_heap; // granule state: 0 none, 1 rw, 2 ro
static std::vector<u32*> rpool; static size_t rpool_used;
static u64 sh_arena_hi, sh_heap_hi;
struct Seg { u64 lo, hi; std::vector<u8> snap; u64 shoff; };
static std::vector<Seg> segs; static u64 seg_total; static u64 tls_lo, tls_sz, tls_modid; static std::vector<u8> tls_init;
static u64 so_lo, so_hi;

static void* mapat(u64 base, u64 sz) { void* p = mmap((void*)base, sz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | (base ? MAP_FIXED_NOREPLACE : 0), -1, 0);
  if (p == MAP_FAILED || (base && p != (void*)base)) { fprintf(stderr, "sim: mmap failed\n"); _exit(3); } return p; }

static void to_main() { void* d; sim_switch(&d, main_sp); __builtin_unreachable(); }
void violation(const char* kind, const std::string& msg) {
  if (!running) { fprintf(stderr, "sim: violation outside run: %s %s\n", kind, msg.c_str()); _exit(3); }
  mode = 0; if (!res->viol) { res->viol = true; res->kind = kind; res->msg = msg; }
  to_main();
}
static std::string fmt(const char* f, ...) { char b[512]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }

static const char* region_name(u64 a) { switch (a >> 40) { case 0x10: return "array memory"; case 0x11: return "heap"; case 0x12: return "stack"; case 0x13: return "reference"; } return "static data"; }
static std::string addr_desc(u64 a);

static inline bool cross(int o) { return !xonly || fib[o].caller != cur->caller; }
static inline bool race_cell(Cell* c, u8 mask, bool w, u32* vc, int t, int& other, bool& otherw) {
  if (c->wclk && c->wtid != t && (c->wmask & mask) && c->wclk > vc[c->wtid] && cross(c->wtid)) { other = c->wtid; otherw = true; return true; }
  if (w) {
    if (c->rsh) { u32* r = rpool[c->rsh - 1]; for (int i = 0; i < MAXT; i++) if (i != t && r[i] > vc[i] && (c->rmask & mask) && cross(i)) { other = i; otherw = false; return true; } }
    else if (c->rclk && c->rtid != t && (c->rmask & mask) && c->rclk > vc[c->rtid] && cross(c->rtid)) { other = c->rtid; otherw = false; return true; }
    c->wclk = vc[t]; c->wmask = (c->wtid == t && c->wclk == vc[t]) ? (u8)(c->wmask | mask) : mask; c->wtid = (u16)t; c->rclk = 0; c->rsh = 0; c->rmask = 0;
  } else {
    if (c->rsh) { rpool[c->rsh - 1][t] = vc[t]; c->rmask |= mask; }
    else if (!c->rclk || c->rtid == t || c->rclk <= vc[c->rtid]) { c->rmask = (c->rclk && c->rtid == t) ? (u8)(c->rmask | mask) : mask; c->rclk = vc[t]; c->rtid = (u16)t; }
    else {
      if (rpool_used >= 65000) return false;
      if (rpool_used >= rpool.size()) rpool.push_back(new u32[MAXT]);
      u32* r = rpool[rpool_used++]; memset(r, 0, sizeof(u32) * MAXT); r[c->rtid] = c->rclk; r[t] = vc[t]; c->rsh = (u16)rpool_used; c->rmask |= mask;
    }
  }
  return false;
}
static Cell* shadow_of(u64 a) {
  switch (a >> 40) {
  case 0x10: if (a - ARENA < ARENA_SZ) return sh_arena + ((a - ARENA) >> 2); return nullptr;
  case 0x11: if (a - HEAP < HEAP_SZ) return sh_heap + ((a - HEAP) >> 2); return nullptr;
  case 0x12: if (a - STKS < STKS_SZ) { u64 i = (a - STKS) / STK_SZ; if (a < stklow[i]) stklow[i] = a & ~3ull; return sh_stk + ((a - STKS) >> 2); } return nullptr;
  default: for (auto& s : segs) if (a >= s.lo && a < s.hi) return sh_data + s.shoff + ((a - s.lo) >> 2); return nullptr;
  }
}
static void report_race(u64 a, bool w, int other, bool otherw) {
  violation("race", fmt("data race: %s by caller %d worker %d conflicts with unordered %s by caller %d worker %d on %s", w ? "write" : "read", cur->caller, cur->idx, otherw ? "write" : "read", fib[other].caller, other % MAXTEAM, addr_desc(a).c_str()));
}
static void race_range(u64 a, u64 n, bool w) {
  u64 e = a + n; Cell* base = nullptr; u64 g = a & ~3ull; bool first = true;
  while (g < e) {
    Cell* c = first || !base ? shadow_of(g) : base + 1; first = false; if (!c) return; base = c;
    u8 m = 15; if (g < a) m &= (u8)(15u << (a - g)); if (g + 4 > e) m &= (u8)(15u >> (g + 4 - e));
    int o; bool ow; if (race_cell(c, m, w, cur->vc, cur->tid, o, ow)) report_race(g, w, o, ow);
    g += 4;
  }
}
static void slow();
static void ref_access(u64 a, u64 n, bool w);

static void bad_access(u64 a, u64 n, bool w, const char* why, const char* kind) {
  violation(kind, fmt("%s of %llu bytes by caller %d worker %d: %s (%s)", w ? "write" : "read", (unsigned long long)n, cur->caller, cur->idx, why, addr_desc(a).c_str()));
}
static void confine(u64 a, u64 n, bool w) {
  switch (a >> 40) {
  case 0x10: { u64 g0 = (a - ARENA) >> 2, g1 = (a + n - 1 - ARENA) >> 2; if (a + n - ARENA > ARENA_SZ) bad_access(a, n, w, "outside every array", w ? "oob-write" : "oob-read");
    for (u64 g = g0; g <= g1; g++) { u8 s = gs_arena[g]; if (!s) bad_access(a, n, w, "outside every array passed to the call", w ? "oob-write" : "oob-read"); if (w && s == 2) bad_access(a, n, w, "write through an input argument", "input-write"); } break; }
  case 0x11: { u64 g0 = (a - HEAP) >> 2, g1 = (a + n - 1 - HEAP) >> 2; if (a + n - HEAP > HEAP_SZ) bad_access(a, n, w, "outside the heap", "oob-heap"); for (u64 g = g0; g <= g1; g++) if (!gs_heap[g]) bad_access(a, n, w, "heap memory that is not allocated", "oob-heap"); break; }
  case 0x12: { u64 i = (a - STKS) / STK_SZ; if (i >= (u64)MAXT || fib[i].st == FREE) bad_access(a, n, w, "stack of a finished worker", "dangling-stack"); break; }
  case 0x13: bad_access(a, n, w, "unrelated memory", "oob-wild"); break;
  default: if (w) { if (a >= so_lo && a < so_hi) break; if (tls_sz && a >= tls_lo && a < tls_lo + tls_sz) break; if (a < 4096) bad_access(a, n, w, "null pointer", "oob-wild"); }
  }
}
static inline void access(u64 a, u64 n, bool w) {
  if (__builtin_expect(mode == 2, 1)) {
    if (!cur) return;
    if (flags & F_CONFINE) confine(a, n, w);
    if ((flags & F_LATE) && cur->callid != callctr[cur->caller] ) violation("late-access", fmt("%s of %s by a worker after its call returned", w ? "write" : "read", addr_desc(a).c_str()));
    if (flags & (F_RACE | F_XRACE)) race_range(a, n, w);
    if (++step >= next_ev) slow();
  } else if (mode == 1) ref_access(a, n, w);
}

// ------------------------------------------------------------------ scheduler
static u64* ehg() { static u64* p = (u64*)abi::__cxa_get_globals(); return p; }
// floating-point environment: every worker and caller keeps its own (rounding mode, flush to zero), like a thread
static inline void fp_get(Fiber* f) { asm volatile("stmxcsr %0\n fnstcw %1" : "=m"(f->mx), "=m"(f->cw)); f->mx &= ~0x3fu; }
static inline void fp_set(u32 mx, u16 cw) { asm volatile("ldmxcsr %0\n fldcw %1" : : "m"(mx), "m"(cw)); }
static void tls_out(Fiber* f) { fp_get(f); memcpy(f->eh, ehg(), 16); f->once0 = std::__once_callable; f->once1 = std::__once_call; if (tls_sz) { if (!f->tls) { f->tls = (u8*)malloc(tls_sz); } memcpy(f->tls, (void*)tls_lo, tls_sz); } }
static void tls_in(Fiber* f) { fp_set(f->mx, f->cw); memcpy(ehg(), f->eh, 16); std::__once_callable = f->once0; std::__once_call = f->once1; if (tls_sz) { if (f->tls) memcpy((void*)tls_lo, f->tls, tls_sz); else memcpy((void*)tls_lo, tls_init.data(), tls_sz); } }
static void go(Fiber* f) {
  if (f == cur) return;
  hashv = mix(hashv, (u64)f->tid * 1000003 + (step - last_sw_step)); last_sw_step = step;
  res->st.switches++;
  Fiber* o = cur; if (o) tls_out(o); tls_in(f); cur = f;
  if (o) sim_switch(&o->sp, f->sp); else { void* d; sim_switch(&d, f->sp); }
}
static inline bool fair() { return step >= tail_at; } // second half of the step budget: round robin, so a waiting loop is only judged under a fair schedule
static void compute_next() {
  u64 n = cfg->step_cap;
  if (!fair() && tail_at < n) n = tail_at;
  if (fair()) { if (next_dec_step < n) n = next_dec_step; }
  else if (cfg->sched.explicit_) { if (dec_i < cfg->sched.dec.size() && cfg->sched.dec[dec_i].first < n) n = cfg->sched.dec[dec_i].first; }
  else if (next_dec_step < n) n = next_dec_step;
  for (auto& f : faults) if (!f.done && f.f.kind != FK_TEAM && f.f.kind != FK_ALLOC && f.f.kind != FK_LATE && f.f.at < n) n = f.f.at;
  if (nextwake != ~0ull) { u64 s = nextwake > clock_off ? nextwake - clock_off : 0; if (s < n) n = s; }
  if (n <= step) n = step + 1;
  next_ev = n;
}
static void wake_stalled() { u64 t = nowt(); nextwake = ~0ull; for (auto& f : fib) if (f.st == STALL) { if (f.wake <= t) f.st = RUN; else if (f.wake < nextwake) nextwake = f.wake; } }
static int runnable(int* out) { int n = 0; for (int i = 0; i < MAXT; i++) if (fib[i].st == RUN) out[n++] = i; return n; }
static u64 draw_slice() { if (slice_mean <= 1) return 1; double u = srng.unit(); u64 k = 1 + (u64)(-__builtin_log(1 - u) * (double)slice_mean); return k; }
static int choose(int* r, int n, bool blocked) {
  if (fair()) { int c = cur ? cur->tid : -1; for (int i = 0; i < n; i++) if (r[i] > c) return r[i]; return r[0]; }
  switch (cfg->sched.policy) {
  case P_SEQ: return r[0];
  case P_REV: return r[n - 1];
  case P_RANDRUN: case P_RAND: return r[srng.below(n)];
  case P_RR: { int c = cur ? cur->tid : -1; for (int i = 0; i < n; i++) if (r[i] > c) return r[i]; return r[0]; }
  case P_PCT: { int b = r[0]; for (int i = 1; i < n; i++) if (fib[r[i]].prio > fib[b].prio) b = r[i]; return b; }
  case P_STARVE: { int m = 0, q[MAXT]; for (int i = 0; i < n; i++) if (r[i] % MAXTEAM != starve_tid) q[m++] = r[i]; if (m) return q[srng.below(m)]; return r[0]; }
  }
  (void)blocked; return r[0];
}
// pick who runs next. blocked: current fiber cannot continue.
static Fiber* pick(bool blocked) {
  for (;;) {
    wake_stalled();
    int r[MAXT]; int n = runnable(r);
    if (!n) {
      if (nextwake != ~0ull) { clock_off += nextwake - nowt(); continue; }
      return nullptr;
    }
    int t;
    if (cfg->sched.explicit_ && !fair()) {
      t = -1;
      while (dec_i < cfg->sched.dec.size() && cfg->sched.dec[dec_i].first < step) dec_i++;
      if (dec_i < cfg->sched.dec.size() && cfg->sched.dec[dec_i].first == step) { int w = cfg->sched.dec[dec_i].second; dec_i++; if (w >= 0 && w < MAXT && fib[w].st == RUN) t = w; }
      if (t < 0) t = blocked ? r[0] : cur->tid;
    } else {
      t = choose(r, n, blocked);
    }
    if (!fair() && (blocked ? t != r[0] : (cur && t != cur->tid))) res->dec.push_back({step, t});
    return &fib[t];
  }
}
static void plan_slice() {
  if (fair()) { next_dec_step = step + 64; return; }
  if (cfg->sched.explicit_) return;
  switch (cfg->sched.policy) {
  case P_RAND: case P_STARVE: next_dec_step = step + draw_slice(); break;
  case P_RR: next_dec_step = step + slice_mean; break;
  case P_PCT: next_dec_step = pct_i < pct_points.size() ? pct_points[pct_i] : ~0ull; break;
  default: next_dec_step = ~0ull;
  }
}
static void block_now(); 
static void deadlock() { std::string s; for (auto& f : fib) if (f.st == BLOCK) s += fmt(" caller %d worker %d", f.caller, f.idx); violation("deadlock", "no worker can make progress; blocked:" + s); }
static void kill_callers(); static void locks_clear();
static void caller_entry(Fiber*);
static void spawn(Fiber* f, int tid, int caller, int idx, Team* t, void (*e)(Fiber*));

static void slow() {
  if (step >= cfg->step_cap) violation("no-progress", fmt("call did not finish within %llu simulated steps", (unsigned long long)cfg->step_cap));
  bool resched = false;
  for (auto& fs : faults) {
    if (fs.done || fs.f.at > step) continue;
    if (fs.f.kind == FK_STALL) { fs.done = true; int t = (int)fs.f.arg; Fiber* f = t < 0 ? cur : &fib[t]; if (f->st == RUN) { f->st = STALL; f->wake = nowt() + (u64)fs.f.arg2; if (f->wake < nextwake) nextwake = f->wake; res->st.fired[FK_STALL]++; if (f == cur) resched = true; } }
    else if (fs.f.kind == FK_CRASH) { int c = (int)fs.f.arg; if (c < 0) c = cur->caller; if (!incall[c]) { continue; } fs.done = true; res->st.fired[FK_CRASH]++; res->st.threads++;
      // the process restarts: every call in progress is abandoned and executed again
      int oldmode = mode; mode = 0; bool was[MAXCALL]; for (int q = 0; q < cfg->ncallers; q++) was[q] = incall[q];
      kill_callers(); for (int q = 0; q < cfg->ncallers; q++) if (was[q]) crash_fn(q); mode = oldmode;
      for (int q = 0; q < cfg->ncallers; q++) spawn(&fib[q * MAXTEAM], q * MAXTEAM, q, 0, nullptr, caller_entry);
      { cur = nullptr; Fiber* f = pick(true); plan_slice(); compute_next(); go(f); __builtin_unreachable(); } }
  }
  if (nextwake <= nowt()) wake_stalled();
  bool dec = false;
  if (fair()) { if (next_dec_step > step + 64) { next_dec_step = step; res->st.fair++; } dec = next_dec_step <= step; }
  else if (cfg->sched.explicit_) { dec = dec_i < cfg->sched.dec.size() && cfg->sched.dec[dec_i].first <= step; }
  else dec = next_dec_step <= step;
  if (resched) { Fiber* f = pick(true); if (!f) deadlock(); plan_slice(); compute_next(); go(f); return; }
  if (dec) {
    if (!fair() && cfg->sched.policy == P_PCT && !cfg->sched.explicit_) { while (pct_i < pct_points.size() && pct_points[pct_i] <= step) pct_i++; cur->prio = --prio_low; }
    Fiber* f = pick(false); plan_slice(); compute_next(); go(f); return;
  }
  compute_next();
}
// voluntary scheduling point
static void yield_point() { if (++step >= next_ev) slow(); }
static void block_on(void* obj) { step++; cur->st = BLOCK; cur->wait = obj; res->st.waits++; Fiber* f = pick(true); if (!f) deadlock(); plan_slice(); compute_next(); go(f); }
static void wake_all(void* obj) { for (auto& f : fib) if (f.st == BLOCK && f.wait == obj) { f.st = RUN; f.wait = nullptr; } }
static void finish() { step++; cur->st = FREE; Fiber* me = cur; Fiber* f = pick(true); (void)me;
  if (!f) { bool any = false; for (auto& x : fib) if (x.st == BLOCK) any = true; if (any) deadlock(); mode = 0; to_main(); }
  plan_slice(); compute_next(); go(f); __builtin_unreachable(); }
static void vjoin(u32* d, const u32* s) { for (int i = 0; i < MAXT; i++) if (s[i] > d[i]) d[i] = s[i]; }
static void fiber_tramp() { Fiber* f = cur; f->entry(f); finish(); }
// what a worker finds on its stack or beside its arrays is the same in every process: never data left by an earlier run
static const u8 JUNK = 0xFF; // NaN / -1
static u64 stkdata[MAXT];
static inline void note_sp(u64 a) { if (a - STKS < STKS_SZ) { u64 i = (a - STKS) / STK_SZ; if (a < stkdata[i]) stkdata[i] = a; } }
static void junk_stack(int tid) { u64 lo = STKS + (u64)tid * STK_SZ, hi = lo + STK_SZ; u64 sp = (u64)__builtin_frame_address(0); if (sp >= lo && sp < hi) return; u64 a = stkdata[tid]; if (a == ~0ull) a = hi; a = a > lo + 16384 ? a - 16384 : lo; memset((void*)a, JUNK, hi - a); stkdata[tid] = ~0ull; }
static __attribute__((noinline)) void junk_below() { u64 sp = (u64)__builtin_frame_address(0); if (sp - STKS >= STKS_SZ) return; u64 lo = (sp - STKS) / STK_SZ * STK_SZ + STKS, d = stkdata[(sp - STKS) / STK_SZ]; d = d == ~0ull ? sp : d; d = d > lo + 16384 ? d - 16384 : lo; volatile u64* q = (u64*)((d + 7) & ~7ull); while ((u64)q < sp - 512) *q++ = ~0ull; }
static __attribute__((noinline)) void padded(const std::function<void()>& f) { volatile char pad[4096]; asm volatile("" : : "r"(pad) : "memory"); f(); asm volatile("" : : "r"(pad) : "memory"); }
void on_clean_stack(const std::function<void()>& f) { junk_below(); padded(f); }
static void clear_stack_shadow(int tid) { u64 lo = stklow[tid]; u64 hi = STKS + (u64)(tid + 1) * STK_SZ; if (lo < hi) memset((void*)(sh_stk + ((lo - STKS) >> 2)), 0, sizeof(Cell) * ((hi - lo) >> 2)); stklow[tid] = ~0ull; }
static void spawn(Fiber* f, int tid, int caller, int idx, Team* t, void (*e)(Fiber*)) {
  clear_stack_shadow(tid); junk_stack(tid);
  f->tid = tid; f->caller = caller; f->idx = idx; f->team = t; f->own = nullptr; f->entry = e; f->st = RUN; f->wait = nullptr; f->vc = vcs[tid]; f->callid = 0; f->waslate = false; f->eh[0] = f->eh[1] = 0; f->once0 = nullptr; f->once1 = nullptr;
  u64 top = STKS + (u64)(tid + 1) * STK_SZ;
  void** sp = (void**)(top - 64); *--sp = nullptr; *--sp = (void*)fiber_tramp; for (int i = 0; i < 6; i++) *--sp = nullptr; f->sp = sp;
  f->prio = (u32)(srng.next() >> 33) | 0x40000000u;
  vcs[tid][tid]++;
}
static void kill_callers() {
  for (auto& f : fib) if (f.st != FREE) { f.st = FREE; if (f.tls) { free(f.tls); f.tls = nullptr; } }
  for (int c = 0; c < MAXCALL; c++) { incall[c] = false; callctr[c] = 0; nth_icv[c] = cfg->nthreads[c]; } locks_clear();
  // a process restart: whatever was allocated is gone, static data is fresh
  for (auto& kv : live) { memset(gs_heap + ((kv.first - HEAP) >> 2), 0, (kv.second.n + 3) / 4); } live.clear(); memset(live_ctr, 0, sizeof live_ctr);
  sut_reset();
  for (auto& f : fib) { if (f.tls) { free(f.tls); f.tls = nullptr; } f.mx = 0x1f80; f.cw = 0x37f; }
}
static void caller_entry(Fiber* f) { int c = f->caller; 
  try { body_fn(c); } catch (std::exception& e) { violation("exception", fmt("uncaught exception left the call: %s", e.what())); } catch (...) { violation("exception", "uncaught exception left the call"); } }
void call_begin(int c) { Fiber* f = cur; callctr[c] = ++callid_ctr; f->callid = callctr[c]; incall[c] = true; call_alloc_ctr = 0; }
void call_end(int c) { incall[c] = false; callctr[c] = ~0ull; }
u64 live_allocs(int c) { return live_ctr[c]; }
u64 call_allocs() { return call_alloc_ctr; }

// ------------------------------------------------------------------ run
static void locks_clear();
static void ref_trap(int s);
static void on_sig(int s, siginfo_t* si, void*) {
  if (running && mode != 0) { mode = 0; if (!res->viol) { res->viol = true;
      if (s == SIGPROF || s == SIGALRM) { res->kind = "hang"; res->msg = "call does not return (no simulated step completes)"; }
      else if (s == SIGABRT) { res->kind = "abort"; res->msg = "the call aborted the process"; }
      else { res->kind = "crash"; res->msg = fmt("signal %d at %s", s, addr_desc((u64)si->si_addr).c_str()); } }
    to_main(); }
  if (s == SIGPROF) return;
  if (mode == 1 && (s == SIGFPE || s == SIGSEGV || s == SIGBUS)) ref_trap(s);
  fprintf(stderr, "sim: fatal signal %d at %p outside a run\n", s, si->si_addr); _exit(3);
}
Result run(const Config& c, const std::function<void(int)>& body, const std::function<void(int)>& on_crash) {
  Result R; res = &R; cfg = &c; body_fn = body; crash_fn = on_crash; flags = c.flags;
  sut_reset();
  for (auto* t : teams) delete t; teams.clear();
  memset(vcs, 0, sizeof vcs); rpool_used = 0;
  for (auto& f : fib) { f.st = FREE; if (f.tls) { free(f.tls); f.tls = nullptr; } f.tid = (int)(&f - fib); f.caller = f.tid / MAXTEAM; f.idx = f.tid % MAXTEAM; f.mx = 0x1f80; f.cw = 0x37f; }
  xonly = !(flags & F_RACE);
  if (flags & (F_RACE | F_XRACE)) {
    if (seg_total) memset((void*)sh_data, 0, (seg_total >> 2) * sizeof(Cell));
    for (int i = 0; i < NSEG; i++) { u64 b = ARENA + i * SEG_SZ; if (ashhi[i] > b) memset((void*)(sh_arena + ((b - ARENA) >> 2)), 0, ((ashhi[i] - b) >> 2) * sizeof(Cell)); ashhi[i] = atop[i]; }
    for (int t = 0; t < MAXT; t++) if (stklow[t] != ~0ull) clear_stack_shadow(t);
  }
  memset(gs_heap, 0, (heap_hi - HEAP) >> 2); memset((void*)HEAP, 0, heap_junk - HEAP); heap_junk = HEAP; heap_top = HEAP + 256; heap_hi = heap_top; live.clear(); alloc_ctr = call_alloc_ctr = 0; memset(live_ctr, 0, sizeof live_ctr);
  locks_clear();
  step = clock_off = 0; callid_ctr = 0; hashv = 1; last_sw_step = 0; region_ctr = 0; dec_i = 0; nextwake = ~0ull; xtid_next = MAXCALL * MAXTEAM;
  faults.clear(); for (auto& f : c.faults) faults.push_back({f, false});
  srng = Rng(c.sched.seed); slice_mean = c.sched.param ? c.sched.param : 16; pct_points.clear(); pct_i = 0; prio_low = 0x3fffffff; starve_tid = (int)(c.sched.param % MAXTEAM);
  if (c.sched.policy == P_STARVE) { starve_tid = (int)srng.below(4); slice_mean = 32; }
  if (c.sched.policy == P_PCT) { u64 len = c.sched.param ? c.sched.param : 1000; int d = (int)srng.range(1, 8); for (int i = 0; i < d; i++) pct_points.push_back(1 + srng.below(len)); for (size_t i = 0; i < pct_points.size(); i++) for (size_t j = i + 1; j < pct_points.size(); j++) if (pct_points[j] < pct_points[i]) std::swap(pct_points[i], pct_points[j]); }
  for (int i = 0; i < MAXCALL; i++) { nth_icv[i] = c.nthreads[i]; incall[i] = false; callctr[i] = 0; }
  running = true; cur = nullptr; next_dec_step = ~0ull; tail_at = c.step_cap / 2;
  for (int i = 0; i < c.ncallers; i++) spawn(&fib[i * MAXTEAM], i * MAXTEAM, i, 0, nullptr, caller_entry);
  Fiber* f = pick(true); plan_slice(); compute_next();
  struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = 25; setitimer(ITIMER_PROF, &it, nullptr);
  cur = f; tls_in(f); mode = 2;
  sim_switch(&main_sp, f->sp);
  mode = 0; running = false; cur = nullptr; fp_set(0x1f80, 0x37f); memset(ehg(), 0, 16);
  memset(&it, 0, sizeof it); setitimer(ITIMER_PROF, &it, nullptr);
  R.st.steps = step; R.st.now = nowt(); R.st.hash = hashv; R.st.allocs = alloc_ctr; R.st.regions = region_ctr;
  if (tls_sz) memcpy((void*)tls_lo, tls_init.data(), tls_sz);
  return R;
}

// ------------------------------------------------------------------ arrays
struct Obj { u64 lo, hi; bool ro; int owner; const char* name; };
static std::vector<Obj> objs;
void arena_reset(int seg) {
  u64 b = ARENA + seg * SEG_SZ; memset((void*)b, 0, ahi[seg] - b); memset(gs_arena + ((b - ARENA) >> 2), 0, (ahi[seg] - b) >> 2); atop[seg] = ahi[seg] = b + 4096;
  size_t k = 0; for (auto& o : objs) if (o.owner != seg) objs[k++] = o; objs.resize(k); }
void arena_reset_all() { for (int i = 0; i < NSEG; i++) arena_reset(i); }
void* arena_alloc(size_t bytes, bool ro, int seg, const char* name) {
  u64 guard = bytes <= 8 ? 56 : 4096; if (bytes > 65536) guard = 65536;
  u64 p = (atop[seg] + guard + 63) & ~63ull; u64 e = p + ((bytes + 63) & ~63ull);
  if (e + guard > ARENA + (seg + 1) * SEG_SZ) { fprintf(stderr, "sim: arena exhausted\n"); _exit(3); }
  memset((void*)atop[seg], JUNK, e + guard - atop[seg]);
  atop[seg] = e + guard; if (atop[seg] > ahi[seg]) ahi[seg] = atop[seg]; if (ahi[seg] > ashhi[seg]) ashhi[seg] = ahi[seg];
  memset(gs_arena + ((p - ARENA) >> 2), ro ? 2 : 1, (bytes + 3) / 4);
  objs.push_back({p, p + bytes, ro, seg, name}); return (void*)p;
}
static std::string addr_desc(u64 a) {
  if (a >> 40 == 0x10) { const Obj* best = nullptr; u64 bd = ~0ull; for (auto& o : objs) { u64 d = a < o.lo ? o.lo - a : (a >= o.hi ? a - o.hi + 1 : 0); if (d < bd) { bd = d; best = &o; } }
    if (best) { return bd ? fmt("memory %llu bytes %s argument %s", (unsigned long long)bd, a < best->lo ? "before" : "past the end of", best->name) : fmt("argument %s byte offset %llu", best->name, (unsigned long long)(a - best->lo)); } }
  return region_name(a);
}
// ------------------------------------------------------------------ reference recording
static u64 ref_top = REFA, ref_hi = REFA; static u8* ref_gs; static u8* ref_b; static sigjmp_buf ref_jb; static std::string ref_why; static int ref_heap;
void ref_reset() { u64 n = (ref_hi - REFA) >> 2; memset(ref_gs, 0, n); memset(ref_b, 0, n); ref_top = ref_hi = REFA + 4096; }
void* ref_alloc(size_t bytes) { u64 guard = bytes > 65536 ? 65536 : 8192; u64 p = (ref_top + guard + 63) & ~63ull; u64 e = p + ((bytes + 63) & ~63ull); if (e + guard - REFA > REFA_SZ) { fprintf(stderr, "sim: ref arena exhausted\n"); _exit(3); } ref_top = e + guard; ref_hi = ref_top; memset(ref_gs + ((p - REFA) >> 2), 1, (bytes + 3) / 4); return (void*)p; }
u8* ref_bits(void* p) { return ref_b + (((u64)p - REFA) >> 2); }
static u64 ref_count;
static void ref_access(u64 a, u64 n, bool w) {
  ref_count++;
  if (a - REFA >= REFA_SZ) return;
  u64 g0 = (a - REFA) >> 2, g1 = (a + n - 1 - REFA) >> 2;
  for (u64 g = g0; g <= g1; g++) { if (!ref_gs[g]) { ref_why = w ? "writes outside its arrays" : "reads outside its arrays"; mode = 0; siglongjmp(ref_jb, 1); }
    if (w) ref_b[g] |= 2; else { if (!(ref_b[g] & 2)) ref_b[g] |= 1; ref_b[g] |= 4; } }
}
static void ref_trap(int s) { ref_why = fmt("signal %d in the reference", s); mode = 0; siglongjmp(ref_jb, 1); }
bool ref_run(const std::function<void()>& f, std::string& why, u64& steps) {
  ref_count = 0;
  if (sigsetjmp(ref_jb, 0)) { why = ref_why; return false; }
  mode = 1; f(); mode = 0; steps = ref_count; return true;
}
// ------------------------------------------------------------------ static data of the code under test
static int phdr_cb(struct dl_phdr_info* i, size_t, void*) {
  if (!i->dlpi_name || !strstr(i->dlpi_name, "libsut.so")) return 0;
  u64 relro_lo = 0, relro_hi = 0; so_lo = ~0ull; so_hi = 0;
  for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_GNU_RELRO) { relro_lo = (i->dlpi_addr + i->dlpi_phdr[k].p_vaddr) & ~4095ull; relro_hi = (i->dlpi_addr + i->dlpi_phdr[k].p_vaddr + i->dlpi_phdr[k].p_memsz) & ~4095ull; }
  for (int k = 0; k < i->dlpi_phnum; k++) { auto& ph = i->dlpi_phdr[k]; u64 lo = i->dlpi_addr + ph.p_vaddr, hi = lo + ph.p_memsz;
    if (ph.p_type == PT_LOAD) { if (lo < so_lo) so_lo = lo; if (hi > so_hi) so_hi = hi; }
    if (ph.p_type == PT_LOAD && (ph.p_flags & PF_W)) { if (lo >= relro_lo && lo < relro_hi) lo = relro_hi; if (lo < hi) { Seg s; s.lo = lo & ~7ull; s.hi = (hi + 7) & ~7ull; segs.push_back(s); } }
    if (ph.p_type == PT_TLS) { tls_sz = ph.p_memsz; tls_init.assign(ph.p_memsz, 0); memcpy(tls_init.data(), (void*)lo, ph.p_filesz); tls_lo = (u64)i->dlpi_tls_data; } }
  return 0;
}
size_t sut_tls_size() { return tls_sz; } size_t sut_data_size() { return seg_total; }
void sut_reset() { for (auto& s : segs) if (memcmp((void*)s.lo, s.snap.data(), s.hi - s.lo)) memcpy((void*)s.lo, s.snap.data(), s.hi - s.lo); if (tls_sz && !running) memcpy((void*)tls_lo, tls_init.data(), tls_sz); }
void init() {
  mapat(ARENA, ARENA_SZ); mapat(HEAP, HEAP_SZ); mapat(STKS, STKS_SZ); mapat(REFA, REFA_SZ);
  sh_arena = (Cell*)mapat(0, ARENA_SZ / 4 * sizeof(Cell)); sh_heap = (Cell*)mapat(0, HEAP_SZ / 4 * sizeof(Cell)); sh_stk = (Cell*)mapat(0, STKS_SZ / 4 * sizeof(Cell));
  gs_arena = (u8*)mapat(0, ARENA_SZ / 4); gs_heap = (u8*)mapat(0, HEAP_SZ / 4); ref_gs = (u8*)mapat(0, REFA_SZ / 4); ref_b = (u8*)mapat(0, REFA_SZ / 4);
  dl_iterate_phdr(phdr_cb, nullptr);
  for (auto& s : segs) { s.snap.assign((u8*)s.lo, (u8*)s.hi); s.shoff = seg_total >> 2; seg_total += s.hi - s.lo; }
  if (seg_total) sh_data = (Cell*)mapat(0, seg_total / 4 * sizeof(Cell) + 4096);
  heap_hi = heap_shhi = HEAP; for (int i = 0; i < NSEG; i++) atop[i] = ahi[i] = ashhi[i] = ARENA + i * SEG_SZ; for (auto& x : stklow) x = ~0ull; for (auto& x : stkdata) x = STKS; arena_reset_all(); ref_reset();
  static char alt[65536]; stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_sig; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGPROF}) sigaction(s, &sa, nullptr);
}

// ------------------------------------------------------------------ OpenMP
static void worker_entry(Fiber* f) {
  Team* t = f->team;
  try { on_clean_stack([&] { ((void (*)(void*))f->fn)(f->arg); }); } catch (...) { violation("exception", "exception escaped a worker"); }
  step++;
  vjoin(t->barvc, f->vc); // published to the joiner
  if (--t->remaining == 0) wake_all(t);
}
struct LockSt { int owner = -1; int cnt = 0; u32 vc[MAXT]; LockSt() { memset(vc, 0, sizeof vc); } };
static std::map<u64, LockSt> locks;
static void run_tasks(Team* t);
static void gomp_barrier_impl() {
  Team* t = cur->team; if (!t || t->n <= 1) { if (t) run_tasks(t); return; }
  yield_point(); run_tasks(t);
  vjoin(t->barvc, cur->vc); u64 g = t->bar_gen;
  if (++t->bar_cnt == t->n) { t->bar_cnt = 0; t->bar_gen++; wake_all(&t->bar_gen); }
  else while (t->bar_gen == g) block_on(&t->bar_gen);
  vjoin(cur->vc, t->barvc); cur->vc[cur->tid]++;
}
static void parallel(void (*fn)(void*), void* data, unsigned nt, const std::function<void(Team*)>* pre = nullptr) {
  if (mode != 2 || !cur) { fn(data); return; }
  Fiber* me = cur; int c = me->caller; bool nested = me->team && me->team->n > 1;
  int n = nt ? (int)nt : nth_icv[c]; if (nested || me->idx != 0) n = 1; if (n > MAXTEAM) n = MAXTEAM;
  u64 rid = region_ctr++;
  for (auto& fs : faults) if (fs.f.kind == FK_TEAM && !fs.done && (fs.f.at == rid || fs.f.at == ~0ull)) { if (fs.f.at != ~0ull) fs.done = true; int k = (int)fs.f.arg; if (k >= 1 && k < n) { n = k; res->st.fired[FK_TEAM]++; } }
  if ((u64)n > res->st.maxteam) res->st.maxteam = n;
  Team* t = new Team; teams.push_back(t); t->n = n; t->caller = c; t->callid = me->callid; t->parent = me->team; t->parent_idx = me->idx; t->remaining = n - 1; t->level = me->team ? me->team->level + 1 : 1; memset(t->barvc, 0, sizeof t->barvc);
  if (pre) (*pre)(t);
  for (int i = 1; i < n; i++) {
    int tid = c * MAXTEAM + i; Fiber* f = &fib[tid]; if (f->st != FREE) violation("runtime", "worker slot still busy");
    spawn(f, tid, c, i, t, worker_entry); f->fn = (void*)fn; f->arg = data; f->callid = me->callid; vjoin(f->vc, me->vc); res->st.threads++;
    for (auto& fs : faults) if (fs.f.kind == FK_LATE && !fs.done && fs.f.at == rid && fs.f.arg == i) { fs.done = true; f->st = STALL; f->wake = nowt() + (u64)fs.f.arg2; if (f->wake < nextwake) nextwake = f->wake; res->st.fired[FK_LATE]++; }
  }
  me->vc[me->tid]++; Team* save = me->team; int saveidx = me->idx; me->team = t; me->idx = 0;
  if (n > 1) { compute_next(); yield_point(); }
  fn(data);
  run_tasks(t);
  me = cur; while (t->remaining > 0) block_on(t);
  run_tasks(t);
  vjoin(me->vc, t->barvc); me->vc[me->tid]++; me->team = save; me->idx = saveidx;
}
static void run_tasks(Team* t) { while (!t->tasks.empty()) { auto* k = t->tasks.back(); t->tasks.pop_back(); vjoin(cur->vc, k->vc); t->nrun++; k->fn(k->data); t->nrun--; free(k->buf); delete k; } }

// work sharing
static Team::WS& ws_get(Team* t, int me, bool& first) { u32 g = t->ws_cnt[me]++; if (t->ws.size() <= g) t->ws.resize(g + 1); first = !t->ws[g].init; t->ws[g].init = true; return t->ws[g]; }
static Team solo;
static Team* team_or_solo() { if (cur && cur->team) return cur->team; return &solo; }
static void ws_setup(Team::WS& w, long s, long e, long inc, long chunk, int kind) { w.next = s; w.end = e; w.incr = inc; w.chunk = chunk < 1 ? 1 : chunk; w.kind = kind; }
static bool ws_next(long* is, long* ie) {
  yield_point(); Team* t = team_or_solo(); auto& w = t->ws[t->ws_cnt[cur->idx] - 1];
  long left = w.incr > 0 ? (w.end - w.next + w.incr - 1) / w.incr : (w.next - w.end - w.incr - 1) / -w.incr; if (left <= 0) return false;
  long n = w.chunk; if (w.kind == 2) { n = (left + t->n - 1) / t->n; if (n < w.chunk) n = w.chunk; } if (w.kind == 0) { n = (left + t->n - 1) / t->n; }
  if (n > left) n = left; *is = w.next; w.next += n * w.incr; *ie = w.next; if (w.incr > 0 ? *ie > w.end : *ie < w.end) *ie = w.end; return true;
}
static bool ws_start(long s, long e, long inc, long chunk, int kind, long* is, long* ie) { Team* t = team_or_solo(); bool f; auto& w = ws_get(t, cur->idx, f); if (f) ws_setup(w, s, e, inc, chunk, kind); return ws_next(is, ie); }
static void par_loop(void (*fn)(void*), void* d, unsigned nt, long s, long e, long inc, long chunk, int kind) {
  std::function<void(Team*)> pre = [=](Team* t) { t->ws.resize(1); t->ws[0].init = true; ws_setup(t->ws[0], s, e, inc, chunk, kind); for (int i = 0; i < MAXTEAM; i++) t->ws_cnt[i] = 1; };
  parallel(fn, d, nt, &pre);
}
static void lock_acq(u64 a) { if (mode != 2 || !cur) return; yield_point(); auto& l = locks[a]; while (l.owner >= 0) block_on(&l); l.owner = cur->tid; vjoin(cur->vc, l.vc); }
static bool lock_try(u64 a) { if (mode != 2 || !cur) return true; yield_point(); auto& l = locks[a]; if (l.owner >= 0) return false; l.owner = cur->tid; vjoin(cur->vc, l.vc); return true; }
static void lock_rel(u64 a) { if (mode != 2 || !cur) return; auto& l = locks[a]; vjoin(l.vc, cur->vc); cur->vc[cur->tid]++; l.owner = -1; wake_all(&l); yield_point(); }
// atomics: release/acquire per location
static std::map<u64, LockSt> syncv;
static void xthr_clear();
static void locks_clear() { locks.clear(); syncv.clear(); xthr_clear(); }
static inline void at_pre(u64 a, size_t n, int mo, bool w) {
  if (mode != 2 || !cur) { if (mode == 1) ref_access(a, n, w); return; }
  if (flags & F_CONFINE) confine(a, n, w);
  if ((flags & F_LATE) && cur->callid != callctr[cur->caller]) violation("late-access", "atomic access by a worker after its call returned");
  if (++step >= next_ev) slow();
  if (mo != 0) { auto& s = syncv[a]; vjoin(cur->vc, s.vc); if (w) { vjoin(s.vc, cur->vc); cur->vc[cur->tid]++; } }
}
} // namespace sim
using namespace sim;

extern "C" {
// -- Fortran run-time library entry points (range checks of the reference model, diagnostics)
static void ref_invalid(const char* why) { if (sim::mode == 1) { sim::ref_why = why; sim::mode = 0; siglongjmp(sim::ref_jb, 1); } if (sim::mode == 2) violation("abort", "the Fortran run-time library was asked to stop the program"); abort(); }
void _gfortran_runtime_error_at(const char*, const char*, ...) { ref_invalid("indexes outside the declared range"); }
void _gfortran_runtime_error(const char*, ...) { ref_invalid("runtime error"); }
void _gfortran_os_error_at(const char*, const char*, ...) { ref_invalid("os error"); }
void _gfortran_stop_string(const char*, size_t, bool) { ref_invalid("stop"); }
void _gfortran_stop_numeric(int, bool) { ref_invalid("stop"); }
void _gfortran_error_stop_string(const char*, size_t, bool) { ref_invalid("stop"); }
void _gfortran_st_write(void*) { if (sim::mode == 1) ref_invalid("reports unsupported options"); }
void _gfortran_st_write_done(void*) {}
void _gfortran_transfer_character_write(void*, void*, int) {}
void _gfortran_transfer_integer_write(void*, void*, int) {}
void _gfortran_transfer_real_write(void*, void*, int) {}
// -- compiler instrumentation
void __tsan_init() {}
void __tsan_func_entry(void*) { sim::note_sp((u64)__builtin_frame_address(0)); }
void __tsan_func_exit() {}
#define RW(n) void __tsan_read##n(void* a) { access((u64)a, n, false); } void __tsan_write##n(void* a) { access((u64)a, n, true); } \
 void __tsan_unaligned_read##n(void* a) { access((u64)a, n, false); } void __tsan_unaligned_write##n(void* a) { access((u64)a, n, true); } \
 void __tsan_volatile_read##n(void* a) { access((u64)a, n, false); } void __tsan_volatile_write##n(void* a) { access((u64)a, n, true); } \
 void __tsan_unaligned_volatile_read##n(void* a) { access((u64)a, n, false); } void __tsan_unaligned_volatile_write##n(void* a) { access((u64)a, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, unsigned long n) { if (n) access((u64)a, n, false); }
void __tsan_write_range(void* a, unsigned long n) { if (n) access((u64)a, n, true); }
void __tsan_vptr_update(void** a, void*) { access((u64)a, 8, true); }
void __tsan_vptr_read(void** a) { access((u64)a, 8, false); }
#define AT(B, T) \
 T __tsan_atomic##B##_load(const volatile T* a, int mo) { at_pre((u64)a, sizeof(T), mo, false); return *a; } \
 void __tsan_atomic##B##_store(volatile T* a, T v, int mo) { at_pre((u64)a, sizeof(T), mo, true); *a = v; } \
 T __tsan_atomic##B##_exchange(volatile T* a, T v, int mo) { at_pre((u64)a, sizeof(T), mo, true); T o = *a; *a = v; return o; } \
 T __tsan_atomic##B##_fetch_add(volatile T* a, T v, int mo) { at_pre((u64)a, sizeof(T), mo, true); T o = *a; *a = o + v; return o; } \
 T __tsan_atomic##B##_fetch_sub(volatile T* a, T v, int mo) { at_pre((u64)a, sizeof(T), mo, true); T o = *a; *a = o - v; return o; } \
 T __tsan_atomic##B##_fetch_and(volatile T* a, T v, int mo) { at_pre((u64)a, sizeof(T), mo, true); T o = *a; *a = o & v; return o; } \
 T __tsan_atomic##B##_fetch_or(volatile T* a, T v, int mo) { at_pre((u64)a, sizeof(T), mo, true); T o = *a; *a = o | v; return o; } \
 T __tsan_atomic##B##_fetch_xor(volatile T* a, T v, int mo) { at_pre((u64)a, sizeof(T), mo, true); T o = *a; *a = o ^ v; return o; } \
 T __tsan_atomic##B##_fetch_nand(volatile T* a, T v, int mo) { at_pre((u64)a, sizeof(T), mo, true); T o = *a; *a = ~(o & v); return o; } \
 int __tsan_atomic##B##_compare_exchange_strong(volatile T* a, T* e, T v, int mo, int) { at_pre((u64)a, sizeof(T), mo, true); if (*a == *e) { *a = v; return 1; } *e = *a; return 0; } \
 int __tsan_atomic##B##_compare_exchange_weak(volatile T* a, T* e, T v, int mo, int) { at_pre((u64)a, sizeof(T), mo, true); if (*a == *e) { *a = v; return 1; } *e = *a; return 0; } \
 T __tsan_atomic##B##_compare_exchange_val(volatile T* a, T e, T v, int mo, int) { at_pre((u64)a, sizeof(T), mo, true); T o = *a; if (o == e) *a = v; return o; }
AT(8, u8) AT(16, u16) AT(32, u32) AT(64, u64)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
// -- OpenMP runtime
void GOMP_parallel(void (*fn)(void*), void* d, unsigned nt, unsigned) { parallel(fn, d, nt); }
void GOMP_parallel_start(void (*)(void*), void*, unsigned) { violation("runtime", "unsupported GOMP_parallel_start"); }
void GOMP_barrier() { if (mode == 2 && cur) gomp_barrier_impl(); }
void GOMP_critical_start() { lock_acq(1); }
void GOMP_critical_end() { lock_rel(1); }
void GOMP_critical_name_start(void** p) { lock_acq((u64)p); }
void GOMP_critical_name_end(void** p) { lock_rel((u64)p); }
void GOMP_atomic_start() { lock_acq(2); }
void GOMP_atomic_end() { lock_rel(2); }
bool GOMP_single_start() { if (mode != 2 || !cur || !cur->team) return true; yield_point(); bool f; ws_get(cur->team, cur->idx, f); return f; }
void* GOMP_single_copy_start() { if (mode != 2 || !cur || !cur->team) return nullptr; bool f; ws_get(cur->team, cur->idx, f); if (f) return nullptr; gomp_barrier_impl(); return cur->team->copyp; }
void GOMP_single_copy_end(void* p) { if (mode != 2 || !cur || !cur->team) return; cur->team->copyp = p; gomp_barrier_impl(); }
#define PLOOP(name, kind) void GOMP_parallel_loop_##name(void (*fn)(void*), void* d, unsigned nt, long s, long e, long i, long ch, unsigned) { if (mode != 2 || !cur) { violation("runtime", "loop outside run"); } par_loop(fn, d, nt, s, e, i, ch, kind); }
PLOOP(static, 0) PLOOP(dynamic, 1) PLOOP(guided, 2) PLOOP(nonmonotonic_dynamic, 1) PLOOP(nonmonotonic_guided, 2)
void GOMP_parallel_loop_runtime(void (*fn)(void*), void* d, unsigned nt, long s, long e, long i, unsigned) { par_loop(fn, d, nt, s, e, i, 1, 1); }
void GOMP_parallel_loop_nonmonotonic_runtime(void (*fn)(void*), void* d, unsigned nt, long s, long e, long i, unsigned) { par_loop(fn, d, nt, s, e, i, 1, 1); }
void GOMP_parallel_loop_maybe_nonmonotonic_runtime(void (*fn)(void*), void* d, unsigned nt, long s, long e, long i, unsigned) { par_loop(fn, d, nt, s, e, i, 1, 1); }
#define LOOP(name, kind) bool GOMP_loop_##name##_start(long s, long e, long i, long ch, long* is, long* ie) { return ws_start(s, e, i, ch, kind, is, ie); } bool GOMP_loop_##name##_next(long* is, long* ie) { return ws_next(is, ie); }
LOOP(static, 0) LOOP(dynamic, 1) LOOP(guided, 2) LOOP(nonmonotonic_dynamic, 1) LOOP(nonmonotonic_guided, 2)
bool GOMP_loop_runtime_start(long s, long e, long i, long* is, long* ie) { return ws_start(s, e, i, 1, 1, is, ie); }
bool GOMP_loop_runtime_next(long* is, long* ie) { return ws_next(is, ie); }
bool GOMP_loop_maybe_nonmonotonic_runtime_start(long s, long e, long i, long* is, long* ie) { return ws_start(s, e, i, 1, 1, is, ie); }
bool GOMP_loop_maybe_nonmonotonic_runtime_next(long* is, long* ie) { return ws_next(is, ie); }
typedef unsigned long long ull;
#define LOOPU(name, kind) bool GOMP_loop_ull_##name##_start(bool, ull s, ull e, ull i, ull ch, ull* is, ull* ie) { return ws_start((long)s, (long)e, (long)i, (long)ch, kind, (long*)is, (long*)ie); } bool GOMP_loop_ull_##name##_next(ull* is, ull* ie) { return ws_next((long*)is, (long*)ie); }
LOOPU(static, 0) LOOPU(dynamic, 1) LOOPU(guided, 2) LOOPU(nonmonotonic_dynamic, 1) LOOPU(nonmonotonic_guided, 2)
void GOMP_loop_end() { if (mode == 2 && cur) gomp_barrier_impl(); }
void GOMP_loop_end_nowait() {}
unsigned GOMP_sections_start(unsigned n) { Team* t = team_or_solo(); bool f; auto& w = ws_get(t, cur->idx, f); if (f) { w.next = 1; w.end = (long)n + 1; } yield_point(); auto& v = t->ws[t->ws_cnt[cur->idx] - 1]; return v.next < v.end ? (unsigned)v.next++ : 0; }
unsigned GOMP_sections_next() { yield_point(); Team* t = team_or_solo(); auto& v = t->ws[t->ws_cnt[cur->idx] - 1]; return v.next < v.end ? (unsigned)v.next++ : 0; }
void GOMP_sections_end() { if (mode == 2 && cur) gomp_barrier_impl(); }
void GOMP_sections_end_nowait() {}
void GOMP_parallel_sections(void (*fn)(void*), void* d, unsigned nt, unsigned n, unsigned) { std::function<void(Team*)> pre = [=](Team* t) { t->ws.resize(1); t->ws[0].init = true; t->ws[0].next = 1; t->ws[0].end = (long)n + 1; for (int i = 0; i < MAXTEAM; i++) t->ws_cnt[i] = 1; }; parallel(fn, d, nt, &pre); }
void GOMP_task(void (*fn)(void*), void* data, void (*cpy)(void*, void*), long sz, long al, bool ifc, unsigned, void**, int, void*) {
  if (mode != 2 || !cur) { violation("runtime", "task outside run"); }
  Team* t = cur->team; char* raw = (char*)malloc(sz + al + 16); char* buf = (char*)(((u64)raw + al - 1) & ~(u64)(al - 1)); if (cpy) cpy(buf, data); else memcpy(buf, data, sz);
  if (!t || !ifc) { fn(buf); free(raw); return; }
  auto* k = new Team::Task; k->fn = fn; k->data = buf; k->buf = raw; memcpy(k->vc, cur->vc, sizeof k->vc); cur->vc[cur->tid]++; t->tasks.push_back(k); yield_point();
}
void GOMP_taskwait() { if (mode == 2 && cur && cur->team) run_tasks(cur->team); }
void GOMP_taskyield() { if (mode == 2 && cur) yield_point(); }
void GOMP_taskgroup_start() {}
void GOMP_taskgroup_end() { if (mode == 2 && cur && cur->team) run_tasks(cur->team); }
void GOMP_ordered_start() { lock_acq(3); }
void GOMP_ordered_end() { lock_rel(3); }
bool GOMP_cancel(int, bool) { return false; }
bool GOMP_cancellation_point(int) { return false; }
int omp_get_thread_num() { return cur ? cur->idx : 0; }
int omp_get_num_threads() { return cur && cur->team ? cur->team->n : 1; }
int omp_get_max_threads() { return cur ? nth_icv[cur->caller] : 1; }
int omp_get_num_procs() { return cur ? nth_icv[cur->caller] : 1; }
int omp_get_thread_limit() { return MAXTEAM; }
int omp_in_parallel() { return cur && cur->team && cur->team->n > 1; }
void omp_set_num_threads(int n) { if (cur && n > 0) nth_icv[cur->caller] = n > MAXTEAM ? MAXTEAM : n; }
void omp_set_dynamic(int) {} int omp_get_dynamic() { return 0; }
void omp_set_nested(int) {} int omp_get_nested() { return 0; }
void omp_set_max_active_levels(int) {} int omp_get_max_active_levels() { return 1; }
int omp_get_level() { return cur && cur->team ? cur->team->level : 0; }
int omp_get_active_level() { return omp_in_parallel(); }
int omp_get_ancestor_thread_num(int l) { return l == 0 ? 0 : omp_get_thread_num(); }
int omp_get_team_size(int l) { return l == 0 ? 1 : omp_get_num_threads(); }
int omp_get_cancellation() { return 0; }
int omp_get_num_devices() { return 0; } int omp_get_default_device() { return 0; } int omp_is_initial_device() { return 1; } int omp_get_team_num() { return 0; } int omp_get_num_teams() { return 1; }
double omp_get_wtime() { return 1e-9 * (double)nowt(); } double omp_get_wtick() { return 1e-9; }
void omp_init_lock(void* l) { locks[(u64)l] = LockSt(); } void omp_destroy_lock(void*) {}
void omp_set_lock(void* l) { lock_acq((u64)l); } void omp_unset_lock(void* l) { lock_rel((u64)l); } int omp_test_lock(void* l) { return lock_try((u64)l); }
void omp_init_nest_lock(void* l) { locks[(u64)l] = LockSt(); } void omp_destroy_nest_lock(void*) {}
void omp_set_nest_lock(void* l) { auto& k = locks[(u64)l]; if (cur && k.owner == cur->tid) { k.cnt++; return; } lock_acq((u64)l); k.cnt = 1; }
void omp_unset_nest_lock(void* l) { auto& k = locks[(u64)l]; if (--k.cnt == 0) lock_rel((u64)l); }
// -- function-local statics
int __wrap___cxa_guard_acquire(u64* g) { if (mode != 2 || !cur) return *(volatile u8*)g ? 0 : 1; if (*(volatile u8*)g) { auto& s = syncv[(u64)g]; vjoin(cur->vc, s.vc); return 0; } lock_acq((u64)g); if (*(volatile u8*)g) { lock_rel((u64)g); auto& s = syncv[(u64)g]; vjoin(cur->vc, s.vc); return 0; } return 1; }
void __wrap___cxa_guard_release(u64* g) { *(volatile u8*)g = 1; if (mode != 2 || !cur) return; auto& s = syncv[(u64)g]; vjoin(s.vc, cur->vc); lock_rel((u64)g); }
void __wrap___cxa_guard_abort(u64* g) { if (mode != 2 || !cur) return; lock_rel((u64)g); }
int __wrap___cxa_atexit(void (*)(void*), void*, void*) { return 0; }
// -- pthread (std::mutex, std::thread)
static bool relock(void* m) { if (mode != 2 || !cur || (((pthread_mutex_t*)m)->__data.__kind & 3) != PTHREAD_MUTEX_RECURSIVE) return false; auto it = locks.find((u64)m); if (it == locks.end() || it->second.owner != cur->tid) return false; it->second.cnt++; return true; }
int __wrap_pthread_mutex_lock(void* m) { if (!relock(m)) lock_acq((u64)m); return 0; }
int __wrap_pthread_mutex_trylock(void* m) { if (relock(m)) return 0; return lock_try((u64)m) ? 0 : EBUSY; }
int __wrap_pthread_mutex_unlock(void* m) { if (mode == 2 && cur) { auto it = locks.find((u64)m); if (it != locks.end() && it->second.owner == cur->tid && it->second.cnt > 0) { it->second.cnt--; return 0; } } lock_rel((u64)m); return 0; }
// condition variables (spurious wake-ups are legal), futures, call_once
int __wrap_pthread_mutex_timedlock(void* m, const void*) { lock_acq((u64)m); return 0; }
int __wrap_pthread_mutex_clocklock(void* m, int, const void*) { lock_acq((u64)m); return 0; }
// readers are serialised like writers: fewer overlaps than a real lock allows, never more
int __wrap_pthread_rwlock_rdlock(void* m) { lock_acq((u64)m); return 0; }
int __wrap_pthread_rwlock_wrlock(void* m) { lock_acq((u64)m); return 0; }
int __wrap_pthread_rwlock_tryrdlock(void* m) { return lock_try((u64)m) ? 0 : EBUSY; }
int __wrap_pthread_rwlock_trywrlock(void* m) { return lock_try((u64)m) ? 0 : EBUSY; }
int __wrap_pthread_rwlock_unlock(void* m) { lock_rel((u64)m); return 0; }
int __wrap_pthread_spin_lock(void* m) { lock_acq((u64)m); return 0; }
int __wrap_pthread_spin_trylock(void* m) { return lock_try((u64)m) ? 0 : EBUSY; }
int __wrap_pthread_spin_unlock(void* m) { lock_rel((u64)m); return 0; }
int __wrap_pthread_cond_wait(void* c, void* m) { if (mode != 2 || !cur) return 0; lock_rel((u64)m); block_on(c); lock_acq((u64)m); return 0; }
int __wrap_pthread_cond_signal(void* c) { if (mode == 2 && cur) { wake_all(c); yield_point(); } return 0; }
int __wrap_pthread_cond_broadcast(void* c) { return __wrap_pthread_cond_signal(c); }
int __wrap_pthread_cond_init(void*, const void*) { return 0; }
int __wrap_pthread_cond_destroy(void*) { return 0; }
void __wrap__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(void* c, void** ul) { __wrap_pthread_cond_wait(c, ul[0]); }
void __wrap__ZNSt18condition_variable10notify_oneEv(void* c) { __wrap_pthread_cond_signal(c); }
void __wrap__ZNSt18condition_variable10notify_allEv(void* c) { __wrap_pthread_cond_signal(c); }
void __wrap__ZNSt18condition_variableC1Ev(void* c) { memset(c, 0, 48); }
void __wrap__ZNSt18condition_variableD1Ev(void*) {}
bool __wrap__ZNSt28__atomic_futex_unsigned_base19_M_futex_wait_untilEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE(void*, u32* a, u32 v, bool, long, long) { if (mode == 2 && cur && *a == v) block_on(a); return true; }
void __wrap__ZNSt28__atomic_futex_unsigned_base19_M_futex_notify_allEPj(u32* a) { if (mode == 2 && cur) { wake_all(a); yield_point(); } }
int __wrap_pthread_once(int* o, void (*f)()) { if (mode != 2 || !cur) { if (!*o) { *o = 2; f(); } return 0; } lock_acq((u64)o); if (*o != 2) { f(); *o = 2; } lock_rel((u64)o); return 0; }
int __wrap_sched_yield() { if (mode == 2 && cur) yield_point(); return 0; }
int __wrap_usleep(unsigned us) { if (mode == 2 && cur) { cur->st = STALL; cur->wake = nowt() + (u64)us * 1000; step++; Fiber* f = pick(true); plan_slice(); compute_next(); go(f); } return 0; }
int __wrap_nanosleep(const struct timespec* t, struct timespec*) { u64 ns = (u64)t->tv_sec * 1000000000ull + (u64)t->tv_nsec; return __wrap_usleep((unsigned)(ns / 1000 + 1)); }
int __wrap_clock_nanosleep(clockid_t, int, const struct timespec* t, struct timespec*) { return __wrap_nanosleep(t, nullptr); }
int __wrap_clock_gettime(clockid_t, struct timespec* t) { u64 n = nowt(); t->tv_sec = (time_t)(n / 1000000000ull); t->tv_nsec = (long)(n % 1000000000ull); return 0; }
time_t __wrap_time(time_t* p) { time_t v = (time_t)(nowt() / 1000000000ull); if (p) *p = v; return v; }
static u64 rnd_state; int __wrap_rand() { Rng r(rnd_state); rnd_state = r.next(); return (int)(rnd_state >> 33); }
char* __wrap_getenv(const char*) { return nullptr; }
struct XThr { void* (*fn)(void*); void* arg; bool done; int tid; };
static std::map<u64, XThr*> xthr; static u64 xthr_id = 1;
}
namespace sim {
static void xthr_entry(Fiber* f) { XThr* x = (XThr*)f->arg; x->fn(x->arg); step++; x->done = true; wake_all(x); }
static void xthr_clear() { for (auto& k : xthr) delete k.second; xthr.clear(); xthr_id = 1; rnd_state = 1; }
static XThr* start_thread(void* (*fn)(void*), void* arg) {
  if (mode != 2 || !cur || xtid_next >= MAXT) violation("runtime", "too many threads");
  XThr* x = new XThr{fn, arg, false, xtid_next++}; Fiber* f = &fib[x->tid]; spawn(f, x->tid, cur->caller, 60, nullptr, xthr_entry); f->arg = x; f->callid = cur->callid; vjoin(f->vc, cur->vc); cur->vc[cur->tid]++; res->st.threads++; yield_point(); return x; }
struct StateBase { virtual ~StateBase() {} virtual void _M_run() = 0; };
static void* run_state(void* p) { StateBase* s = (StateBase*)p; s->_M_run(); delete s; return nullptr; }
}
extern "C" {
int __wrap_pthread_create(pthread_t* t, const void*, void* (*fn)(void*), void* arg) { XThr* x = start_thread(fn, arg); u64 id = xthr_id++; xthr[id] = x; *t = (pthread_t)id; return 0; }
int __wrap_pthread_join(pthread_t t, void**) { auto it = xthr.find((u64)t); if (it == xthr.end()) return ESRCH; XThr* x = it->second; while (!x->done) block_on(x); vjoin(cur->vc, vcs[x->tid]); return 0; }
int __wrap_pthread_detach(pthread_t) { return 0; }
void __wrap__ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE(u64* self, void** st, void (*)()) { XThr* x = start_thread(run_state, *st); *st = nullptr; u64 id = xthr_id++; xthr[id] = x; *self = id; }
void __wrap__ZNSt6thread4joinEv(u64* self) { __wrap_pthread_join((pthread_t)*self, nullptr); *self = 0; }
void __wrap__ZNSt6thread6detachEv(u64* self) { *self = 0; }
// -- allocator
static void* sim_malloc(size_t n, size_t al) {
  u64 k = alloc_ctr++; call_alloc_ctr++;
  if (flags & F_NOALLOC) violation("allocation", "the call requested heap memory");
  for (auto& fs : faults) if (fs.f.kind == FK_ALLOC && (fs.f.arg ? k >= fs.f.at : k == fs.f.at)) { res->st.fired[FK_ALLOC]++; return nullptr; }
  if (al < 16) al = 16; u64 p = (heap_top + 64 + al - 1) & ~(u64)(al - 1); u64 e = p + ((n + 15) & ~15ull); if (e + 64 > HEAP + HEAP_SZ) return nullptr;
  if (e + 64 > heap_junk) { u64 z = e + 16384 < HEAP + HEAP_SZ ? e + 16384 : HEAP + HEAP_SZ; memset((void*)heap_junk, JUNK, z - heap_junk); heap_junk = z; }
  heap_top = e + 64; if (heap_top > heap_hi) { heap_hi = heap_top; } memset(gs_heap + ((p - HEAP) >> 2), 1, (n + 3) / 4);
  if (flags & (F_RACE | F_XRACE)) memset((void*)(sh_heap + ((p - HEAP) >> 2)), 0, sizeof(Cell) * ((e - p) >> 2));
  memset((void*)(p - 64), 0xA5, e - p + 128); live[p] = Live{n, cur->caller}; live_ctr[cur->caller]++; if (++step >= next_ev) slow(); return (void*)p;
}
static bool sim_free(void* p) { if (!p) return true; if ((u64)p - HEAP >= HEAP_SZ) return false; if (mode != 2) return true; auto it = live.find((u64)p); if (it == live.end()) violation("bad-free", "free of memory that is not allocated"); 
  memset(gs_heap + (((u64)p - HEAP) >> 2), 0, (it->second.n + 3) / 4); live_ctr[it->second.caller]--; live.erase(it); return true; }
static inline bool insim() { return mode == 2 && cur; }
void* __wrap_malloc(size_t n) { return insim() ? sim_malloc(n, 16) : malloc(n); }
void* __wrap_calloc(size_t a, size_t b) { if (!insim()) return calloc(a, b); void* p = sim_malloc(a * b, 16); if (p) memset(p, 0, a * b); return p; }
void* __wrap_realloc(void* o, size_t n) { if (!insim()) { return realloc(o, n); } void* p = sim_malloc(n, 16); if (p && o) { auto it = live.find((u64)o); size_t m = it == live.end() ? 0 : it->second.n; memcpy(p, o, m < n ? m : n); sim_free(o); } return p; }
void* __wrap_aligned_alloc(size_t al, size_t n) { return insim() ? sim_malloc(n, al) : aligned_alloc(al, n); }
int __wrap_posix_memalign(void** p, size_t al, size_t n) { if (!insim()) return posix_memalign(p, al, n); *p = sim_malloc(n, al); return *p ? 0 : ENOMEM; }
void __wrap_free(void* p) { if (!sim_free(p)) free(p); }
static void* newx(size_t n, size_t al) { void* p = insim() ? sim_malloc(n, al) : aligned_alloc(al < 16 ? 16 : al, (n + al + 15) / (al < 16 ? 16 : al) * (al < 16 ? 16 : al)); if (!p) throw std::bad_alloc(); return p; }
void* __wrap__Znwm(size_t n) { return newx(n, 16); }
void* __wrap__Znam(size_t n) { return newx(n, 16); }
void* __wrap__ZnwmSt11align_val_t(size_t n, size_t a) { return newx(n, a); }
void* __wrap__ZnamSt11align_val_t(size_t n, size_t a) { return newx(n, a); }
void* __wrap__ZnwmRKSt9nothrow_t(size_t n, void*) { return insim() ? sim_malloc(n, 16) : malloc(n); }
void* __wrap__ZnamRKSt9nothrow_t(size_t n, void*) { return insim() ? sim_malloc(n, 16) : malloc(n); }
void __wrap__ZdlPv(void* p) { __wrap_free(p); }
void __wrap__ZdaPv(void* p) { __wrap_free(p); }
void __wrap__ZdlPvm(void* p, size_t) { __wrap_free(p); }
void __wrap__ZdaPvm(void* p, size_t) { __wrap_free(p); }
void __wrap__ZdlPvSt11align_val_t(void* p, size_t) { __wrap_free(p); }
void __wrap__ZdaPvSt11align_val_t(void* p, size_t) { __wrap_free(p); }
void __wrap__ZdlPvmSt11align_val_t(void* p, size_t, size_t) { __wrap_free(p); }
void __wrap__ZdaPvmSt11align_val_t(void* p, size_t, size_t) { __wrap_free(p); }
void* __wrap_memcpy(void* d, const void* s, size_t n) { if (mode && n) { access((u64)s, n, false); access((u64)d, n, true); } return memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { if (mode && n) { access((u64)s, n, false); access((u64)d, n, true); } return memmove(d, s, n); }
void* __wrap_memset(void* d, int c, size_t n) { if (mode && n) access((u64)d, n, true); return memset(d, c, n); }
}
