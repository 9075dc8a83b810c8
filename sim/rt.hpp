// Deterministic simulator runtime: fibers, seeded scheduler, simulated OpenMP
// runtime / allocator / locks / clock, happens-before race detector, memory
// confinement.  Everything the code under test could observe as
// nondeterminism is decided here.
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
#include <functional>
namespace sim {
typedef uint64_t u64; typedef uint32_t u32; typedef uint16_t u16; typedef uint8_t u8;

struct Rng { // splitmix64
  u64 s; explicit Rng(u64 x = 0) : s(x) {}
  u64 next() { u64 z = (s += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
  u64 below(u64 n) { return n ? next() % n : 0; }
  long range(long a, long b) { return a + (long)below((u64)(b - a + 1)); }
  double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  bool chance(double p) { return unit() < p; }
};
inline u64 mix(u64 a, u64 b) { Rng r(a * 0x9e3779b97f4a7c15ull ^ (b + 0x632be59bd9b4e019ull)); r.next(); return r.next(); }

// ---- memory layout (fixed addresses, so a run is a pure function of its case)
constexpr u64 ARENA = 0x100000000000ull, ARENA_SZ = 1ull << 29; // arrays handed to the code under test
constexpr u64 HEAP  = 0x110000000000ull, HEAP_SZ  = 1ull << 28; // simulated malloc
constexpr u64 STKS  = 0x120000000000ull;                        // fiber stacks
constexpr u64 REFA  = 0x130000000000ull, REFA_SZ  = 1ull << 30; // reference model arrays
constexpr u64 STK_SZ = 1u << 18; constexpr int MAXCALL = 4, MAXTEAM = 64, XTID = 24;
constexpr int MAXT = MAXCALL * MAXTEAM + XTID; constexpr u64 STKS_SZ = STK_SZ * (u64)MAXT;

constexpr int NSEG = MAXCALL + 1; constexpr u64 SEG_SZ = 96ull << 20;
enum { F_RACE = 1, F_CONFINE = 2, F_LATE = 4, F_NOALLOC = 8, F_REF = 16, F_BITWISE = 32, F_PROGRESS = 64, F_BASE = 128, F_XRACE = 256, F_LEAK = 512 };
enum FaultKind { FK_TEAM, FK_STALL, FK_LATE, FK_CRASH, FK_ALLOC, FK_POISON, FK_N };
extern const char* FAULT_NAME[FK_N];
struct Fault { int kind; u64 at; long arg; long arg2; };
enum Policy { P_SEQ, P_REV, P_RANDRUN, P_RAND, P_PCT, P_RR, P_STARVE, P_N };
extern const char* POLICY_NAME[P_N];
struct Sched { int policy = P_SEQ; u64 seed = 0; u64 param = 0; bool explicit_ = false; std::vector<std::pair<u64, int>> dec; };

struct Stats { u64 steps = 0, now = 0, switches = 0, regions = 0, threads = 0, hash = 0, fair = 0, allocs = 0, maxteam = 0, waits = 0; u64 fired[FK_N] = {}; };
struct Config { Sched sched; std::vector<Fault> faults; int flags = 0; u64 step_cap = 0; int nthreads[MAXCALL] = {1, 1, 1, 1}; int ncallers = 1; bool trace = false; };

struct Result { bool viol = false; std::string kind, msg; Stats st; std::vector<std::pair<u64, int>> dec; };

// A run: ncallers caller fibers execute body(caller); a crashed caller is
// restarted with body(caller) again.
Result run(const Config&, const std::function<void(int)>& body, const std::function<void(int)>& on_crash);
void init();                        // after all libraries are loaded
void violation(const char* kind, const std::string& msg); // inside a run: does not return
bool in_run();
// arrays
void arena_reset(int seg); void arena_reset_all(); // segment c: arrays of caller c; segment MAXCALL: shared inputs
void* arena_alloc(size_t bytes, bool ro, int seg, const char* name);  // registered object with guards
void call_begin(int caller); void call_end(int caller);
void on_clean_stack(const std::function<void()>& f); // uninitialised locals of f read as JUNK
u64 live_allocs(int caller); u64 call_allocs();
u64 now();
// reference-model execution with access recording
struct RefObj { u64 base; u64 bytes; };
void* ref_alloc(size_t bytes); void ref_reset();
bool ref_run(const std::function<void()>& f, std::string& why, u64& steps); // false: touched memory outside its arrays
u8* ref_bits(void* p);     // one byte per 4-byte granule: 1 = read before written, 2 = written, 4 = read
void sut_reset();          // restore the library's static data (process restart)
size_t sut_tls_size(); size_t sut_data_size();
}
