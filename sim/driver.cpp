#include <sys/personality.h>
#include <unistd.h>
// Driver: turns seeds into simulated runs, judges them, minimises failures,
// writes and replays replay files.
#include "model.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <ctime>
#include <unordered_set>
#include <algorithm>
#include <fstream>
#include <sstream>
#include <unistd.h>
#include <functional>
using namespace sim;

struct Prop { const char* id; int flags; bool (*sel)(const KInfo&, int impl, int ty); int mode; };
// F_REF: results equal the reference model; F_BASE: equal the same call executed alone, sequentially, without faults
enum { M_PLAIN, M_HIST, M_CRASH, M_ALLOC, M_STALL, M_POISON };
static bool starts(const std::string& s, const char* p) { return s.compare(0, strlen(p), p) == 0; }
static bool dev_or_fort(const KInfo& k, int impl, int ty) { return impl == IMPL_DEV ? k.dev[ty] != nullptr : (ty == 0 && k.fort && !k.cls.empty()); }
static bool is_stencil(const KInfo& k) { return starts(k.cls, "cd_stencil"); }
static bool s01(const KInfo& k, int i, int t) { return starts(k.cls, "cd_apply") && dev_or_fort(k, i, t); }
static bool s02(const KInfo& k, int i, int t) { return starts(k.cls, "cdf_") && dev_or_fort(k, i, t); }
static bool s03(const KInfo& k, int i, int t) { return is_stencil(k) && k.mth.find("adj") == std::string::npos && dev_or_fort(k, i, t); }
static bool s04(const KInfo& k, int i, int t) { return is_stencil(k) && k.mth.find("adj") != std::string::npos && k.mth.find("cf") == std::string::npos && dev_or_fort(k, i, t); }
static bool s05(const KInfo& k, int i, int t) { return is_stencil(k) && k.mth.find("cf") != std::string::npos && dev_or_fort(k, i, t); }
static bool s06(const KInfo& k, int i, int t) { return starts(k.cls, "cd_correct_bc") && dev_or_fort(k, i, t); }
static bool s07(const KInfo& k, int i, int t) { return k.cls == "coarse_to_fine" && dev_or_fort(k, i, t); }
static bool s08(const KInfo& k, int i, int t) { return k.cls == "C08" && i == IMPL_DEV && k.dev[t]; }
static bool s09(const KInfo& k, int i, int t) { return k.cls == "C09" && i == IMPL_DEV && k.dev[t]; }
static bool s10(const KInfo& k, int i, int t) { return k.cls == "C10" && i == IMPL_DEV && k.dev[t]; }
static bool sall(const KInfo& k, int i, int t) { return !k.harness && (i == IMPL_DEV ? k.dev[t] != nullptr : t == 0 && k.fort); }
static bool sdsl(const KInfo& k, int i, int t) { return (k.cls == "C08" || k.cls == "C10") && i == IMPL_DEV && k.dev[t]; }
static bool salld(const KInfo& k, int i, int t) { return sall(k, i, t) || sdsl(k, i, t); }
static bool spair(const KInfo& k, int i, int t) { return !k.harness && dev_or_fort(k, i, t); }
static bool sdev(const KInfo& k, int i, int t) { return !k.harness && i == IMPL_DEV && k.dev[t]; }
static bool sdevd(const KInfo& k, int i, int t) { return sdev(k, i, t) || sdsl(k, i, t); }
static bool sfort(const KInfo& k, int i, int t) { return !k.harness && i == IMPL_FORT && t == 0 && k.fort; }
static bool s18(const KInfo& k, int i, int t) { return k.cls == "C18" && i == IMPL_DEV && k.dev[t]; }
static const Prop PROPS[] = {
  {"C01", F_REF, s01, M_PLAIN}, {"C02", F_REF, s02, M_PLAIN}, {"C03", F_REF, s03, M_PLAIN}, {"C04", F_REF, s04, M_PLAIN}, {"C05", F_REF, s05, M_PLAIN}, {"C06", F_REF, s06, M_PLAIN}, {"C07", F_REF, s07, M_PLAIN},
  {"C08", F_REF, s08, M_PLAIN}, {"C09", F_REF, s09, M_PLAIN}, {"C10", F_REF, s10, M_PLAIN},
  {"C11", F_REF | F_CONFINE, salld, M_POISON}, {"C12", F_RACE | F_BITWISE, sdevd, M_PLAIN}, {"C13", F_LATE | F_BASE | F_BITWISE, sdev, M_STALL},
  {"C14", F_BASE | F_BITWISE | F_XRACE, sdevd, M_HIST}, {"C15", F_REF | F_BITWISE | F_XRACE, sfort, M_HIST}, {"C16", F_BASE | F_BITWISE, spair, M_CRASH}, {"C17", F_BASE | F_BITWISE | F_LEAK, sdev, M_ALLOC}, {"C18", F_REF | F_LEAK, s18, M_HIST}};
static const Prop* find_prop(const std::string& s) { for (auto& p : PROPS) if (s == p.id) return &p; return nullptr; }

// ------------------------------------------------------------------ one run
typedef std::vector<std::vector<Prep>> Preps;
struct Shared { std::vector<void*> ptr; };
struct Exec { const Case* c; Preps* P; bool baseline; std::map<int, std::vector<void*>> shared; };
struct CallSt { size_t pc = 0; bool resume = false; std::vector<void*> ptr; };
static CallSt cst[MAXCALL];
static size_t esz(const Op& o) { return o.ty ? 4 : 8; }
static void put(void* p, int ty, const std::vector<double>& v) { if (ty) { float* q = (float*)p; for (size_t i = 0; i < v.size(); i++) q[i] = (float)v[i]; } else if (!v.empty()) memcpy(p, v.data(), v.size() * 8); }
static double get(const void* p, int ty, size_t i) { return ty ? (double)((const float*)p)[i] : ((const double*)p)[i]; }
static bool samebits(const void* p, int ty, size_t i, double v) { if (ty) { float f = (float)v; return std::isnan(v) ? std::isnan(((const float*)p)[i]) : !memcmp(&f, (const float*)p + i, 4); } return std::isnan(v) ? std::isnan(((const double*)p)[i]) : !memcmp(&v, (const double*)p + i, 8); }
static std::string where(const Op& o, const ArrP& x, size_t i) {
  const KernelD& d = *kernels()[o.k].d; long dm[8][2]; d.D(o.iv.data(), x.arg, dm); std::string s = std::string(d.A[x.arg].role) + "("; size_t r = i;
  for (int q = 0; q < d.A[x.arg].nd; q++) { long e = dm[q][1] - dm[q][0] + 1; if (e < 1) e = 1; s += (q ? "," : "") + std::to_string(dm[q][0] + (long)(r % e)); r /= e; } return s + ")"; }
static std::string opname(const Op& o) { const KInfo& k = kernels()[o.k]; return o.impl ? std::string(k.d->name) + " (Fortran)" : (k.harness ? std::string(k.d->name) : std::string(k.d->dev)) + (o.ty ? "<float>" : "<double>"); }
static std::string num(double v) { char b[40]; snprintf(b, sizeof b, "%.17g", v); return b; }
static void fill_call(const Op& o, const Prep& p, int seg, std::vector<void*>& ptr, const std::vector<void*>* sh) {
  const KernelD& d = *kernels()[o.k].d; ptr.assign(d.nargs, nullptr); arena_reset(seg);
  for (int i = 0; i < d.nargs; i++) { const ArgD& a = d.A[i];
    if (sh && (*sh)[i]) { ptr[i] = (*sh)[i]; continue; }
    if (a.kind == 'i') { ptr[i] = arena_alloc(4, true, seg, a.role); *(int*)ptr[i] = (int)o.iv[i]; }
    else if (a.kind == 'd') { ptr[i] = arena_alloc(esz(o), true, seg, a.role); if (o.ty) *(float*)ptr[i] = (float)o.dv[i]; else *(double*)ptr[i] = o.dv[i]; }
    else if (a.kind == 'I') { size_t n = p.isz.at(i); int* q = (int*)arena_alloc(n * 4, true, seg, a.role); auto it = o.ia.find(i); for (size_t j = 0; j < n; j++) q[j] = it != o.ia.end() && j < it->second.size() ? it->second[j] : 0; ptr[i] = q; } }
  for (auto& x : p.arrs) if (!ptr[x.arg]) { ptr[x.arg] = arena_alloc(x.n * esz(o), !x.out, seg, d.A[x.arg].role); put(ptr[x.arg], o.ty, x.init); }
}
static void check_ints(const Op& o, const Prep& p, const std::vector<void*>& ptr) {
  const KernelD& d = *kernels()[o.k].d;
  for (int i = 0; i < d.nargs; i++) { const ArgD& a = d.A[i]; bool bad = false; if (a.kind == 'i') bad = *(int*)ptr[i] != (int)o.iv[i]; else if (a.kind == 'd') bad = !samebits(ptr[i], o.ty, 0, o.dv[i]);
    else if (a.kind == 'I') { auto it = o.ia.find(i); for (size_t j = 0; j < p.isz.at(i); j++) if (((int*)ptr[i])[j] != (it != o.ia.end() && j < it->second.size() ? it->second[j] : 0)) bad = true; }
    if (bad) violation("input-changed", opname(o) + ": argument " + a.role + " was modified"); }
}
// after: the call finished; otherwise it was abandoned and only intactness is judged
static void judge(const Op& o, Prep& p, const std::vector<void*>& ptr, int flags, bool baseline, bool after) {
  check_ints(o, p, ptr);
  for (size_t a = 0; a < p.arrs.size(); a++) { auto& x = p.arrs[a]; const void* q = ptr[x.arg]; if (!strcmp(kernels()[o.k].d->A[x.arg].role, "scratch")) continue; // a harness's own work space
    for (size_t i = 0; i < x.n; i++) {
      if (!x.out || !(x.bits[i] & 2)) { bool ref = flags & (F_REF); double want = !after || ref || baseline || !p.based ? x.init[i] : p.base[a][i];
        if (baseline && !ref) continue;
        if (!samebits(q, o.ty, i, want)) violation(x.out ? "stray-write" : "input-changed", opname(o) + ": " + where(o, x, i) + " must stay " + num(want) + " but is " + num(get(q, o.ty, i)) + (after ? "" : " after the call was abandoned")); continue; }
      if (!after) continue;
      double got = get(q, o.ty, i);
      if (flags & F_REF) { if (!(std::fabs(got - x.exp[i]) <= x.tol)) violation("mismatch", opname(o) + ": " + where(o, x, i) + " is " + num(got) + ", specified value " + num(x.exp[i])); }
      if (!baseline && p.based) {
        if ((flags & F_BITWISE) && !samebits(q, o.ty, i, p.base[a][i])) violation("mismatch", opname(o) + ": " + where(o, x, i) + " is " + num(got) + ", the sequential single-worker execution gives " + num(p.base[a][i]));
        if ((flags & F_BASE) && !(std::fabs(got - p.base[a][i]) <= x.tol) && !(std::isnan(got) && std::isnan(p.base[a][i]))) violation("mismatch", opname(o) + ": " + where(o, x, i) + " is " + num(got) + ", an undisturbed call on its own gives " + num(p.base[a][i])); }
    } }
  if (baseline && after && (flags & (F_BASE | F_BITWISE))) { p.base.resize(p.arrs.size()); for (size_t a = 0; a < p.arrs.size(); a++) { auto& x = p.arrs[a]; p.base[a].resize(x.n); for (size_t i = 0; i < x.n; i++) p.base[a][i] = get(ptr[x.arg], o.ty, i); } p.based = true; }
}
static void invoke(const Op& o, void** a) { const KInfo& k = kernels()[o.k]; extern void call_fortran(void (*)(), void**, int); if (o.impl == IMPL_DEV) k.dev[o.ty](a); else call_fortran(k.fort, a, k.d->nargs); }
static void body(Exec& E, int c) {
  CallSt& s = cst[c]; const CallerC& k = E.c->callers[c];
  while (s.pc < k.ops.size()) {
    const Op& o = k.ops[s.pc]; Prep& p = (*E.P)[c][s.pc];
    if (!s.resume) { auto it = E.shared.find(o.share); fill_call(o, p, c, s.ptr, o.share && it != E.shared.end() ? &it->second : nullptr); }
    s.resume = false; u64 l0 = live_allocs(c);
    call_begin(c); on_clean_stack([&] { invoke(o, s.ptr.data()); }); call_end(c);
    if ((E.c->flags & F_LEAK) && live_allocs(c) != l0) violation("leak", opname(o) + ": memory is still allocated after the call");
    judge(o, p, s.ptr, E.c->flags, E.baseline, true);
    s.pc++;
  }
}
static void final_check(Exec& E) { // nothing may change after the last call returned
  if (E.c->flags & F_LATE) for (size_t c = 0; c < E.c->callers.size(); c++) if (!E.c->callers[c].ops.empty()) { auto& o = E.c->callers[c].ops.back(); (void)o; }
}
static bool force_confine = false;
static Result run_case(const Case& c, Preps& P, u64 cap) {
  Config cf; cf.sched = c.sched; cf.faults = c.faults; cf.flags = c.flags & ~(F_BASE | F_BITWISE | F_LEAK | F_REF); if (c.fmode == M_ALLOC + 100) cf.flags |= F_NOALLOC; if (force_confine) cf.flags |= F_CONFINE; cf.step_cap = cap; cf.ncallers = (int)c.callers.size();
  for (int i = 0; i < cf.ncallers; i++) { cf.nthreads[i] = c.callers[i].nthreads; cst[i] = CallSt(); }
  Exec E{&c, &P, false, {}}; arena_reset_all();
  for (size_t i = 0; i < c.callers.size(); i++) for (size_t j = 0; j < c.callers[i].ops.size(); j++) { auto& o = c.callers[i].ops[j]; if (!o.share || E.shared.count(o.share)) continue;
    const KernelD& d = *kernels()[o.k].d; std::vector<void*> v(d.nargs, nullptr); for (auto& x : P[i][j].arrs) if (!x.out) { v[x.arg] = arena_alloc(x.n * esz(o), true, MAXCALL, d.A[x.arg].role); put(v[x.arg], o.ty, x.init); } E.shared[o.share] = v; }
  Result r = run(cf, [&](int k) { body(E, k); }, [&](int k) { CallSt& s = cst[k]; s.resume = true; auto& o = c.callers[k].ops[s.pc]; judge(o, P[k][s.pc], s.ptr, c.flags, false, false); });
  final_check(E); return r;
}
// sequential, one worker, no faults, every op on its own in a fresh process image
static Result run_base(const Case& c, size_t i, size_t j, Prep& p) {
  Case b; b.prop = c.prop; b.flags = c.flags & (F_REF | F_BASE | F_BITWISE); b.callers.resize(1); b.callers[0].nthreads = 1; b.callers[0].ops.push_back(c.callers[i].ops[j]); b.callers[0].ops[0].share = 0;
  Config cf; cf.flags = force_confine ? F_CONFINE : 0; cf.ncallers = 1; cf.step_cap = 1000000 + p.refsteps * 200; if (kernels()[b.callers[0].ops[0].k].cls == "C18") for (auto& x : p.arrs) cf.step_cap += 400 * x.n; cst[0] = CallSt(); Preps P(1); P[0].push_back(std::move(p)); Exec E{&b, &P, true, {}}; arena_reset_all();
  Result r = run(cf, [&](int k) { body(E, k); }, [](int) {}); p = std::move(P[0][0]); p.base_steps = r.st.steps; return r;
}
static const size_t MAXCELLS = 9000000; // calls of a whole case; ordinary and huge candidates stay below 2.4 million
static size_t cells_of(int sc) { return sc >= 4 ? MAXCELLS : 2400000; }
static u64 huge_every = 0;
static bool prepare_case(const Case& c, Preps& P, std::string& why) {
  P.clear(); P.resize(c.callers.size());
  for (size_t i = 0; i < c.callers.size(); i++) for (auto& o : c.callers[i].ops) { P[i].emplace_back(); if (!prepare(o, P[i].back(), MAXCELLS)) { why = P[i].back().why; return false; } if (c.fmode == M_CRASH && !P[i].back().overwrite) { why = "not an overwrite kernel"; return false; } }
  return true;
}
static u64 cap_of(const Case& c, const Preps& P) { u64 s = 0; for (auto& v : P) for (auto& p : v) s += p.base_steps; return (100 + 60 * c.callers.size()) * s + 400000; }
// whole evaluation of a case; nruns counts simulated runs
static Result eval(const Case& c, bool& valid, u64* nruns = nullptr, Preps* out = nullptr) {
  Preps P; std::string why; valid = prepare_case(c, P, why); Result r; if (!valid) { r.msg = why; return r; }
  for (size_t i = 0; i < c.callers.size(); i++) for (size_t j = 0; j < c.callers[i].ops.size(); j++) { Result b = run_base(c, i, j, P[i][j]); if (nruns) ++*nruns; if (b.viol) { b.msg += " [in a sequential single-worker run]"; return b; } }
  r = run_case(c, P, cap_of(c, P)); if (nruns) ++*nruns; if (out) *out = std::move(P); return r;
}

// ------------------------------------------------------------------ generation of runs
static void gen_sched(Rng& r, Sched& s, u64 est) {
  s = Sched(); s.seed = r.next(); double u = r.unit(); static const u64 sl[] = {1, 2, 5, 16, 64, 256};
  if (u < .07) s.policy = P_SEQ; else if (u < .14) s.policy = P_REV; else if (u < .28) s.policy = P_RANDRUN; else if (u < .6) { s.policy = P_RAND; s.param = sl[r.below(6)]; }
  else if (u < .8) { s.policy = P_PCT; s.param = est + 1; } else if (u < .9) { s.policy = P_RR; s.param = sl[r.below(5)]; } else s.policy = P_STARVE;
  if (est > 20000 && (s.policy == P_RAND || s.policy == P_RR) && s.param < 16) s.param = 16;
}
static int gen_team(Rng& r) { static const int t[] = {1, 2, 2, 3, 3, 4, 4, 5, 6, 7, 8, 8, 11, 13, 16, 23, 31, 32, 48, 64}; return t[r.below(20)]; }
static void gen_faults(Rng& r, Case& c, u64 est) {
  c.faults.clear(); int mode = c.fmode % 100; bool heavy = mode == M_STALL; size_t ops = 0; for (auto& k : c.callers) ops += k.ops.size();
  if (r.chance(heavy ? .5 : .3)) { int n = (int)r.range(1, 2); for (int i = 0; i < n; i++) c.faults.push_back({FK_TEAM, r.chance(.4) ? ~0ull : r.below(ops + 1), r.range(1, 16), 0}); }
  if (r.chance(heavy ? .6 : .3)) { int n = (int)r.range(1, heavy ? 5 : 3); for (int i = 0; i < n; i++) c.faults.push_back({FK_STALL, 1 + r.below(est + 1), -1, (long)r.range(1, 1 << r.range(4, heavy ? 22 : 16))}); }
  if (r.chance(heavy ? .6 : .3)) { int n = (int)r.range(1, heavy ? 6 : 3); for (int i = 0; i < n; i++) c.faults.push_back({FK_LATE, r.below(ops + 1), r.range(1, r.chance(.7) ? 7 : 63), (long)r.range(1, 1 << r.range(4, heavy ? 22 : 16))}); }
  if (mode == M_CRASH) { int n = r.chance(.7) ? 1 : (int)r.range(2, 4); for (int i = 0; i < n; i++) c.faults.push_back({FK_CRASH, 1 + r.below(est + est / 8 + 1), (long)r.below(c.callers.size()), 0}); }
  if (c.prop == "C18" && r.chance(.4)) { int n = (int)r.range(1, 3); for (int i = 0; i < n; i++) c.faults.push_back({FK_ALLOC, r.chance(.3) ? r.below(8) : r.below(60), 0, 0}); if (r.chance(.15)) c.faults.push_back({FK_ALLOC, r.below(60), 1, 0}); }
  if (mode == M_ALLOC && c.fmode < 100) { if (r.chance(.5)) c.faults.push_back({FK_ALLOC, r.below(4), 1, 0}); else c.faults.push_back({FK_ALLOC, r.below(3), 0, 0}); }
}
struct Sel { int k, impl, ty; };
static std::vector<Sel> select_ops(const Prop& p) { std::vector<Sel> v; auto& K = kernels(); for (size_t k = 0; k < K.size(); k++) for (int impl = 0; impl < 2; impl++) for (int ty = 0; ty < 2; ty++) if (p.sel(K[k], impl, ty)) v.push_back({(int)k, impl, ty}); return v; }
static void mutate_data(Rng& r, Op& o) { o.dseed = r.next(); }
static bool gen_valid_op(Rng& r, const Sel& s, Op& o, Prep& p, bool poison, int sc, bool overwrite, u64& discarded) {
  for (int t = 0; t < 40; t++) { o = gen_op(r, s.k, sc); o.impl = s.impl; o.ty = s.ty; o.poison = poison; if (prepare(o, p, cells_of(sc)) && (p.written || t > 30 || (t == 0 && r.chance(kernels()[s.k].harness ? .6 : .08))) && (!overwrite || p.overwrite)) return true; discarded++; if (overwrite && p.ok && !p.overwrite) return false; }
  return false;
}

struct Agg { u64 cases = 0, runs = 0, baseruns = 0, steps = 0, simtime = 0, switches = 0, discarded = 0, threads = 0, regions = 0, waits = 0, maxteam = 0, refevals = 0; u64 fired[FK_N] = {}; std::unordered_set<u64> inter, sigs; std::map<std::string, u64> perk, pol; u64 nontriv = 0, written = 0; std::vector<std::string> samples; };
static double wall() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }

static void note(Agg& A, const Case& c, const Result& r, const Preps& pr) {
  A.runs++; A.steps += r.st.steps; A.simtime += r.st.now; A.switches += r.st.switches; A.threads += r.st.threads; A.regions += r.st.regions; A.waits += r.st.waits; A.maxteam = std::max(A.maxteam, r.st.maxteam);
  for (int i = 0; i < FK_N; i++) A.fired[i] += r.st.fired[i]; A.pol[POLICY_NAME[c.sched.policy]]++;
  u64 h = r.st.hash; for (auto& k : c.callers) for (auto& o : k.ops) { h = mix(h, (u64)o.k * 4 + o.impl * 2 + o.ty); for (long v : o.iv) h = mix(h, (u64)v); } u64 wr = 0; for (auto& v : pr) for (auto& p : v) wr += p.written; if (wr) A.inter.insert(h);
}
static void mutate_int(Rng& r, Op& o, const Op& q, int a) { // one integer argument of a kernel call, staying within what callers may pass
  std::string n = kernels()[o.k].d->A[a].role; static const char* free_[] = {"dir", "side", "btype", "order", "iorder", "color", "r"};
  for (auto f : free_) if (n == f) o.iv[a] = q.iv[a];
  if (n.size() >= 3 && n.substr(n.size() - 3) == "gcw") o.iv[a] = q.iv[a];
  else if (n.size() == 3 && n.substr(0, 2) == "hi" && kernels()[o.k].base.find("blk") == std::string::npos && kernels()[o.k].base.find("block") == std::string::npos) o.iv[a] += r.range(-1, 1);
}
static Case gen_case(const Prop& P, Rng& r, const std::vector<Sel>& sel, u64 idx, Agg& A, Preps& preps, bool& ok) {
  Case c; c.prop = P.id; c.flags = P.flags; c.fmode = P.mode; ok = false; preps.clear();
  int nc = 1, nops = 1; if (P.mode == M_HIST) { double u = r.unit(); if (u < .35) { nc = 1; nops = (int)r.range(2, 5); } else if (u < .8) { nc = (int)r.range(2, 3); nops = (int)r.range(1, 2); } else { nc = (int)r.range(2, 4); nops = (int)r.range(1, 4); } }
  if (P.mode == M_ALLOC && r.chance(.4)) c.fmode = M_ALLOC + 100;
  if (P.mode == M_CRASH) { nc = r.chance(.15) ? 2 : 1; nops = r.chance(.2) ? 2 : 1; }
  bool huge = P.mode != M_HIST && huge_every && idx % huge_every == huge_every - 1; int sc = huge ? ((idx / huge_every) % 10 == 3 ? 4 : (idx / huge_every) % 5 == 1 ? 5 : 3) : r.chance(P.mode == M_HIST ? .01 : .03) ? 2 : r.chance(P.mode == M_HIST ? .004 : .012) ? 1 : 0; int nsel = (int)sel.size(); bool hist = P.mode == M_HIST; int share = 1;
  Sel prev = sel[(huge ? mix(idx, 77) : idx) % nsel]; Op prevop;
  if (huge && idx % 10 != 0) { // mostly calls that sweep the whole box
    auto sweeps = [](const Sel& s) { const KernelD& d = *kernels()[s.k].d; for (int a = 0; a < d.nargs; a++) for (auto q : {"seglo", "plo0", "clo0"}) if (!strcmp(d.A[a].role, q)) return false; return true; };
    for (int t = 0; t < 60 && !sweeps(prev); t++) prev = sel[mix(idx, 78 + t) % nsel]; } bool haveprev = false;
  preps.resize(nc);
  for (int i = 0; i < nc; i++) { CallerC k; k.nthreads = hist && nc > 1 ? (int)r.range(1, 8) : gen_team(r); 
    for (int j = 0; j < nops; j++) {
      Op o; Prep p; bool done = false; bool poison = P.mode == M_POISON ? r.chance(.85) : r.chance(.1);
      if (hist && haveprev && r.chance(.7)) { // the same or a related call: same arguments with new data, one option changed, or shared inputs
        o = prevop; double u = r.unit();
        if (u < .3) mutate_data(r, o);
        else if (u < .55 && i > 0) { if (!c.callers.empty()) { // share inputs with the previous caller's op when identical
            for (auto& kk : c.callers) for (auto& oo : kk.ops) if (oo.k == o.k && oo.dseed == o.dseed && !oo.share && op_text(oo) == op_text(o)) { oo.share = share; o.share = share; } if (o.share) share++; } }
        else if (u < .9) { auto& K = kernels()[o.k]; Op q = gen_op(r, o.k, sc); for (int t = 0; t < 3; t++) { int a = (int)r.below(K.d->nargs); if (K.d->A[a].kind == 'i') { if (K.harness) o.iv[a] = r.chance(.5) ? q.iv[a] : o.iv[a] + r.range(-1, 1); else mutate_int(r, o, q, a); } else if (K.d->A[a].kind == 'd') o.dv[a] = q.dv[a]; } if (r.chance(.5)) mutate_data(r, o); }
        if (o.share && (o.dseed != prevop.dseed)) o.share = 0;
        done = prepare(o, p, MAXCELLS) && p.written > 0; if (!done) A.discarded++;
      }
      if (!done) { Sel s = haveprev || i || j ? sel[r.below(nsel)] : prev; 
        if (haveprev && r.chance(.5)) { const std::string& cl = kernels()[prevop.k].cls; for (int t = 0; t < 20; t++) { if (kernels()[s.k].cls == cl) break; s = sel[r.below(nsel)]; } }
        if (!gen_valid_op(r, s, o, p, poison, sc, P.mode == M_CRASH, A.discarded)) return c; }
      prevop = o; prevop.share = 0; haveprev = true; A.refevals++;
      k.ops.push_back(o); preps[i].push_back(std::move(p)); A.perk[kernels()[o.k].d->name + std::string(o.impl ? "/fortran" : o.ty ? "/float" : "/double")]++;
    }
    c.callers.push_back(k); }
  ok = true; return c;
}

// ------------------------------------------------------------------ minimisation
static bool fails(const Case& c, Result* out = nullptr, const std::string& kind = "") { bool v; Result r = eval(c, v); if (!v || !r.viol) return false; auto cls = [](const std::string& k) { return k == "stray-write" || k == "mismatch" || k == "input-changed" ? std::string("result") : k; }; if (!kind.empty() && cls(r.kind) != cls(kind)) return false; if (out) *out = r; return true; }
static Case minimise(Case c, Result& R, double budget) {
  double t0 = wall(); std::string kind = R.kind; int tries = 0; auto ok = [&](const Case& x) { if (wall() - t0 > budget || tries > 3000) return false; tries++; Result r; if (fails(x, &r, kind)) { R = r; return true; } return false; };
  bool ch = true;
  while (ch && wall() - t0 < budget) { ch = false;
    for (size_t i = 0; c.callers.size() > 1 && i < c.callers.size();) { Case x = c; x.callers.erase(x.callers.begin() + i); if (ok(x)) { c = x; ch = true; } else i++; }
    for (size_t i = 0; i < c.callers.size(); i++) for (size_t j = 0; c.callers[i].ops.size() > 1 && j < c.callers[i].ops.size();) { Case x = c; x.callers[i].ops.erase(x.callers[i].ops.begin() + j); if (ok(x)) { c = x; ch = true; } else j++; }
    for (size_t i = 0; i < c.faults.size();) { Case x = c; x.faults.erase(x.faults.begin() + i); if (ok(x)) { c = x; ch = true; } else i++; }
    if (c.sched.policy != P_SEQ) { Case x = c; x.sched = Sched(); if (ok(x)) { c = x; ch = true; } else if (c.sched.policy != P_REV && c.sched.policy != P_RANDRUN) { x.sched.policy = P_REV; if (ok(x)) { c = x; ch = true; } } }
    for (size_t i = 0; i < c.callers.size(); i++) for (int t : {1, 2, 3, 4, c.callers[i].nthreads / 2}) if (t >= 1 && t < c.callers[i].nthreads) { Case x = c; x.callers[i].nthreads = t; if (ok(x)) { c = x; ch = true; break; } }
    for (size_t i = 0; i < c.callers.size(); i++) for (size_t j = 0; j < c.callers[i].ops.size(); j++) {
      const KernelD& d = *kernels()[c.callers[i].ops[j].k].d;
      auto tryop = [&](const std::function<void(Op&)>& f) { Case x = c; Op& o = x.callers[i].ops[j]; std::string b = op_text(o); int sh = o.share; f(o); if (op_text(o) == b) return false; if (sh) for (auto& k : x.callers) for (auto& q : k.ops) if (q.share == sh && &q != &o) f(q); if (ok(x)) { c = x; ch = true; return true; } return false; };
      tryop([](Op& o) { o.poison = false; }); tryop([](Op& o) { o.wide = 0; }); tryop([](Op& o) { o.pattern = 3; }); tryop([](Op& o) { o.dseed = 1; }); tryop([](Op& o) { o.share = 0; });
      int D = kernels()[c.callers[i].ops[j].k].dim;
      for (int q = 0; q < D; q++) for (long sz : {1l, 2l, 3l, -2l, -1l}) tryop([&](Op& o) { long l = 0; int hi = -1; for (int a = 0; a < d.nargs; a++) { if (d.A[a].role == std::string("lo") + char('0' + q)) l = o.iv[a]; if (d.A[a].role == std::string("hi") + char('0' + q)) hi = a; } if (hi < 0) return; long n = o.iv[hi] - l + 1, m = sz > 0 ? sz : sz == -2 ? n / 2 : n - 1; if (m < 1 || m >= n) return; long old = o.iv[hi]; long nw = l + m - 1; for (int a = 0; a < d.nargs; a++) if (d.A[a].kind == 'i') { std::string rr = d.A[a].role; if ((rr.find("lo") != std::string::npos || rr.find("hi") != std::string::npos) && rr.back() == char('0' + q) && o.iv[a] > nw) o.iv[a] = std::max(o.iv[a] - (old - nw), l - 1); } });
      for (int a = 0; a < d.nargs; a++) if (d.A[a].kind == 'i') { for (long v : {0l, 1l}) tryop([&](Op& o) { if (std::labs(o.iv[a]) > v) o.iv[a] = v; }); tryop([&](Op& o) { o.iv[a] /= 2; }); tryop([&](Op& o) { if (o.iv[a]) o.iv[a] -= o.iv[a] > 0 ? 1 : -1; }); } else if (d.A[a].kind == 'd') tryop([&](Op& o) { o.dv[a] = 1; });
    } }
  // schedule: explicit decisions, then delta-debug them
  Case x = c; if (!c.sched.explicit_) { Result r; if (fails(c, &r, kind)) { x.sched = Sched(); x.sched.explicit_ = true; x.sched.dec = r.dec; if (ok(x)) c = x; } }
  if (c.sched.explicit_) { size_t n = 2; while (c.sched.dec.size() >= 1 && wall() - t0 < budget) { size_t L = c.sched.dec.size(), ck = (L + n - 1) / n; bool red = false; for (size_t b = 0; b < L; b += ck) { Case y = c; y.sched.dec.erase(y.sched.dec.begin() + b, y.sched.dec.begin() + std::min(L, b + ck)); if (ok(y)) { c = y; red = true; break; } } if (!red) { if (ck <= 1) break; n = std::min(n * 2, L); } else n = std::max<size_t>(2, n - 1); } }
  return c;
}

// ------------------------------------------------------------------ main
static std::string esc(const std::string& s) { std::string o; for (char ch : s) { if (ch == '"' || ch == '\\') { o += '\\'; o += ch; } else if (ch == '\n') o += "\\n"; else if ((unsigned char)ch < 32) o += ' '; else o += ch; } return o; }
static std::string arg(int n, char** v, const char* k, const char* d) { for (int i = 1; i + 1 < n; i++) if (!strcmp(v[i], k)) return v[i + 1]; return d; }
int main(int argc, char** argv) {
  if (!getenv("SIM_NOASLR")) { setenv("SIM_NOASLR", "1", 1); int cur = personality(0xffffffff); if (cur != -1 && !(cur & ADDR_NO_RANDOMIZE) && personality(cur | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv); }
  init(); kernels(); force_confine = arg(argc, argv, "--confine", "0") == "1";
  std::string rp = arg(argc, argv, "--replay", "");
  if (!rp.empty()) { std::ifstream f(rp); std::stringstream ss; ss << f.rdbuf(); Case c; std::string err; if (!case_parse(ss.str(), c, err)) { fprintf(stderr, "replay: %s\n", err.c_str()); return 2; }
    bool v; Result r = eval(c, v); if (!v) { printf("INVALID %s\n", r.msg.c_str()); return 2; }
    if (r.viol) { printf("VIOLATION-REPRODUCED property=%s kind=%s steps=%llu hash=%016llx\n%s\n", c.prop.c_str(), r.kind.c_str(), (unsigned long long)r.st.steps, (unsigned long long)r.st.hash, r.msg.c_str()); return 1; }
    printf("NO-VIOLATION steps=%llu hash=%016llx\n", (unsigned long long)r.st.steps, (unsigned long long)r.st.hash); return 0; }
  std::string prop = arg(argc, argv, "--prop", ""); const Prop* P = find_prop(prop); if (!P) { fprintf(stderr, "unknown property\n"); return 2; }
  u64 seed = strtoull(arg(argc, argv, "--seed", "1").c_str(), 0, 10), start = strtoull(arg(argc, argv, "--start", "0").c_str(), 0, 10), stride = strtoull(arg(argc, argv, "--stride", "1").c_str(), 0, 10), ncases = strtoull(arg(argc, argv, "--cases", "1000").c_str(), 0, 10);
  double secs = atof(arg(argc, argv, "--secs", "30").c_str()); int per = atoi(arg(argc, argv, "--scheds", "4").c_str()); std::string outp = arg(argc, argv, "--out", ""), rdir = arg(argc, argv, "--replays", "."); bool trace = arg(argc, argv, "--trace", "0") == "1"; std::string only = arg(argc, argv, "--only", "");
  huge_every = strtoull(arg(argc, argv, "--huge", "0").c_str(), 0, 10); double minb = atof(arg(argc, argv, "--minimise", "25").c_str());
  auto sel = select_ops(*P); if (!only.empty()) { std::vector<Sel> s2; for (auto& s : sel) if (only == kernels()[s.k].d->name) s2.push_back(s); sel = s2; }
  if (sel.empty()) { fprintf(stderr, "no operations for %s\n", prop.c_str()); return 2; }
  if (arg(argc, argv, "--list", "0") == "1") { for (auto& s : sel) printf("%s %d %d\n", kernels()[s.k].d->name, s.impl, s.ty); return 0; }
  if (arg(argc, argv, "--valid", "0") == "1") { for (auto& s : sel) { std::map<std::string, int> why; for (int t = 0; t < 300; t++) { Rng r(mix(seed, t)); Op o = gen_op(r, s.k, 0); o.impl = s.impl; o.ty = s.ty; Prep p; if (!prepare(o, p, MAXCELLS)) why[p.why]++; else if (!p.written) why["writes nothing"]++; else why["ok"]++; } printf("%s/%d%d", kernels()[s.k].d->name, s.impl, s.ty); for (auto& w : why) printf(" | %s %d", w.first.c_str(), w.second); printf("\n"); } return 0; }
  Agg A; double t0 = wall(); bool found = false; std::string vkind, vmsg, vpath; u64 i = start, n = 0; u64 thash = 0;
  for (; n < ncases && wall() - t0 < secs && !found; n++, i += stride) {
    Rng r(mix(mix(seed, i), mix(prop[1], prop[2]))); Preps pr; bool ok; u64 d0 = A.discarded; (void)d0;
    Case c = gen_case(*P, r, sel, i, A, pr, ok); if (!ok) { continue; }
    A.cases++; bool bad = false; Result R; u64 est = 0;
    for (size_t a = 0; a < pr.size() && !bad; a++) for (size_t b = 0; b < pr[a].size() && !bad; b++) { R = run_base(c, a, b, pr[a][b]); A.baseruns++; est += pr[a][b].base_steps; if (R.viol) { bad = true; c.sched = Sched(); c.faults.clear(); } for (auto& x : pr[a][b].arrs) (void)x; A.written += pr[a][b].written; A.fired[FK_POISON] += c.callers[a].ops[b].poison; thash = mix(thash, R.st.hash + R.st.steps); }
    for (int s = 0; s < (est > 1000000 ? 1 : per) && !bad; s++) { gen_sched(r, c.sched, est); for (auto& k : c.callers) if (s) k.nthreads = P->mode == M_HIST && c.callers.size() > 1 ? (int)r.range(1, 8) : gen_team(r); gen_faults(r, c, est); R = run_case(c, pr, cap_of(c, pr)); note(A, c, R, pr); thash = mix(thash, R.st.hash + R.st.steps * 3 + R.viol); if (trace) printf("case %llu sched %d steps %llu hash %016llx viol %d\n", (unsigned long long)i, s, (unsigned long long)R.st.steps, (unsigned long long)R.st.hash, R.viol); if (R.viol) bad = true; }
    if (A.samples.size() < 3 && !bad) A.samples.push_back(case_text(c));
    if (bad) { found = true;
      Result r2, r3; bool f2 = fails(c, &r2), f3 = fails(c, &r3);
      if (!f2 || !f3 || r2.kind != r3.kind || r2.msg != r3.msg || r2.st.hash != r3.st.hash) { fprintf(stderr, "sim: failure is not reproducible (case %llu): %s %s / %d %s %s / %d %s\n%s", (unsigned long long)i, R.kind.c_str(), R.msg.c_str(), f2, r2.kind.c_str(), r2.msg.c_str(), f3, r3.msg.c_str(), case_text(c).c_str()); return 4; }
      std::string first = r2.kind + ": " + r2.msg; Case m = c; R = r2; if (minb > 0) m = minimise(c, R, minb); vkind = R.kind; vmsg = R.msg;
      vpath = rdir + "/" + prop + "-" + std::to_string(seed) + "-" + std::to_string(i) + ".replay"; std::ofstream f(vpath);
      f << "# property " << prop << " seed " << seed << " case " << i << "\n# " << vkind << ": " << vmsg << "\n# first seen as " << first << "\n" << case_text(m); f.close(); }
  }
  if (!outp.empty()) { std::ofstream f(outp); f << "{\"prop\":\"" << prop << "\",\"found\":" << (found ? "true" : "false") << ",\"kind\":\"" << esc(vkind) << "\",\"msg\":\"" << esc(vmsg) << "\",\"replay\":\"" << esc(vpath) << "\",\"iterations\":" << n << ",\"cases\":" << A.cases << ",\"runs\":" << A.runs << ",\"baseruns\":" << A.baseruns << ",\"steps\":" << A.steps << ",\"simtime\":" << A.simtime << ",\"switches\":" << A.switches << ",\"threads\":" << A.threads << ",\"regions\":" << A.regions << ",\"waits\":" << A.waits << ",\"maxteam\":" << A.maxteam << ",\"discarded\":" << A.discarded << ",\"written\":" << A.written << ",\"distinct\":" << A.inter.size() << ",\"thash\":\"" << std::hex << thash << std::dec << "\",\"wall\":" << wall() - t0 << ",\"ops\":" << sel.size();
    f << ",\"fired\":{"; for (int q = 0; q < FK_N; q++) f << (q ? "," : "") << "\"" << FAULT_NAME[q] << "\":" << A.fired[q]; f << "},\"kernels\":{"; bool fst = true; for (auto& k : A.perk) { f << (fst ? "" : ",") << "\"" << k.first << "\":" << k.second; fst = false; } f << "},\"policies\":{"; fst = true; for (auto& k : A.pol) { f << (fst ? "" : ",") << "\"" << k.first << "\":" << k.second; fst = false; }
    f << "},\"samples\":["; for (size_t q = 0; q < A.samples.size(); q++) f << (q ? "," : "") << "\"" << esc(A.samples[q]) << "\""; f << "],\"hashes\":["; size_t hc = 0; for (u64 h : A.inter) { f << (hc ? "," : "") << "\"" << std::hex << h << std::dec << "\""; if (++hc >= 200000) break; } f << "]}\n"; }
  if (found) { printf("found %s: %s\n%s\n", vkind.c_str(), vmsg.c_str(), vpath.c_str()); return 1; }
  return 0;
}
