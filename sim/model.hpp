// Kernel table, operations (one kernel call), cases (a whole simulated run),
// the reference execution of an operation and the case generator.
#pragma once
#include "rt.hpp"
#include <string>
#include <vector>
#include <map>
#include <memory>
struct ArgD { const char* role; char kind; int nd; int out; }; // kind: i/d scalar, I/D array
struct KernelD { const char* name; const char* dev; int nargs; const ArgD* A; void (*D)(const long*, int, long (*)[2]); const char* file; };
struct KInfo { const KernelD* d; void (*ref)(); void (*fort)(); void (*dev[2])(void**); int dim; std::string base, cls, mth; bool harness; };
std::vector<KInfo>& kernels();
int kernel_by_name(const std::string&);
typedef std::map<std::string, int> RoleMap;

enum { IMPL_DEV = 0, IMPL_FORT = 1 };
struct Op {
  int k = 0, impl = 0, ty = 0; sim::u64 dseed = 1; int pattern = 0; bool poison = false; int share = 0, wide = 0;
  std::vector<long> iv; std::vector<double> dv; std::map<int, std::vector<int>> ia;
};
struct CallerC { int nthreads = 1; std::vector<Op> ops; };
struct Case { std::string prop; int flags = 0; int fmode = 0; std::vector<CallerC> callers; sim::Sched sched; std::vector<sim::Fault> faults; };

struct ArrP { int arg; bool out; size_t n; std::vector<double> init, exp; std::vector<sim::u8> bits; double tol = 0; };
struct Prep { bool ok = false; std::string why; std::vector<ArrP> arrs; std::map<int, size_t> isz; bool overwrite = true; sim::u64 refsteps = 0; size_t cells = 0, written = 0;
  bool based = false; std::vector<std::vector<double>> base; sim::u64 base_steps = 0; };
bool prepare(const Op&, Prep&, size_t maxcells);

Op gen_op(sim::Rng&, int k, int sizeclass);
std::string op_text(const Op&);
std::string case_text(const Case&);
bool case_parse(const std::string&, Case&, std::string& err);
