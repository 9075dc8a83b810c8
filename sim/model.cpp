#include "model.hpp"
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <sstream>
#include <set>
#include <algorithm>
using namespace sim;
#include "kernels_gen.inc"
#include "ref_table.inc"
#include "harness_gen.inc"
extern "C" void (*const* sut_fortran_table())() __attribute__((weak));

// ---- table
struct DevReg { int id, ty; void (*inv)(void**); };
static DevReg devreg[4096]; static int ndev;
extern "C" void sim_register(int id, int ty, void (*inv)(void**)) { if (ndev < 4096) devreg[ndev++] = {id, ty, inv}; }
struct HReg { const char* name; int ty; int ref; void (*inv)(void**); };
static HReg hreg[1024]; static int nh;
extern "C" void sim_register_harness(const char* name, int ty, int ref, void (*inv)(void**)) { if (nh < 1024) hreg[nh++] = {name, ty, ref, inv}; }
std::vector<KInfo>& kernels() {
  static std::vector<KInfo> v; if (!v.empty()) return v;
  size_t n = sizeof KERNELS / sizeof *KERNELS; void (*const* ft)() = sut_fortran_table ? sut_fortran_table() : nullptr;
  for (size_t i = 0; i < n; i++) { KInfo k; memset((void*)k.dev, 0, sizeof k.dev); k.d = &KERNELS[i]; k.ref = REF_FUNCS[i]; k.fort = ft ? ft[i] : nullptr; k.harness = false; std::string nm = KERNELS[i].name;
    k.dim = 3; k.base = nm; size_t L = nm.size(); if (L > 2 && nm[L - 1] == 'd' && isdigit(nm[L - 2])) { k.dim = nm[L - 2] - '0'; k.base = nm.substr(0, L - 2); }
    std::string t = KERNELS[i].dev; size_t c = t.find("::"); if (c != std::string::npos) { k.cls = t.substr(0, c); k.mth = t.substr(c + 2); } v.push_back(k); }
  size_t m = sizeof HARNESS / sizeof *HARNESS;
  for (size_t i = 0; i < m; i++) { KInfo k; memset((void*)k.dev, 0, sizeof k.dev); k.d = &HARNESS[i]; k.ref = nullptr; k.fort = nullptr; k.harness = true; k.base = HARNESS[i].name; k.dim = HARNESS[i].file[0] - '0'; k.cls = HARNESS[i].dev; k.mth = ""; v.push_back(k); }
  for (int i = 0; i < ndev; i++) v[devreg[i].id].dev[devreg[i].ty] = devreg[i].inv;
  for (int i = 0; i < nh; i++) for (auto& k : v) if (k.harness && !strcmp(k.d->name, hreg[i].name)) { if (hreg[i].ref) k.ref = (void (*)())hreg[i].inv; else k.dev[hreg[i].ty] = hreg[i].inv; }
  return v;
}
int kernel_by_name(const std::string& s) { auto& v = kernels(); for (size_t i = 0; i < v.size(); i++) if (s == v[i].d->name) return (int)i; return -1; }

// ---- calling a Fortran routine with n pointer arguments
template <size_t... I> static void callN(void (*f)(), void** a, std::index_sequence<I...>) { ((void (*)(decltype((void)I, (void*)0)...))f)(a[I]...); }
template <size_t N> static void callT(void (*f)(), void** a) { callN(f, a, std::make_index_sequence<N>{}); }
template <size_t... N> static auto mk(std::index_sequence<N...>) { static void (*const t[])(void (*)(), void**) = {callT<N>...}; return t; }
void call_fortran(void (*f)(), void** a, int n) { mk(std::make_index_sequence<72>{})[n](f, a); }

// ---- data
static double unit_scale(const Op& o) { int m = o.ty ? 5 : 20; return std::pow(10.0, (int)(mix(o.dseed ^ 0x0417, 7) % (unsigned)(2 * m + 1)) - m); }
static double gen_val(const Op& o, int arg, size_t i, bool positive) {
  u64 h = mix(o.dseed * 131 + (u64)arg, i); double u = (h >> 11) * (1.0 / 9007199254740992.0); double v;
  switch (o.pattern) {
  case 1: v = (h & 1) && !positive ? -(0.5 + 1.5 * u) : 0.5 + 1.5 * u; break;      // signed
  case 2: v = 1.0 + (double)(h % 9); if (!positive && (h >> 40 & 1)) v = -v; break;                    // small integers
  case 3: v = 1.0 + 0.25 * arg; break;                                                                 // constant
  case 4: v = positive ? 0.5 + 1.5 * u : ((h >> 60) < 8 ? 0.0 : 0.5 + 1.5 * u); break;                  // zeros
  case 5: v = positive ? 0.5 + 1.5 * u : (0.5 + 1.5 * u) * (o.ty ? 0x1p-130 : 0x1p-1030); break;                 // subnormal: shows a flush-to-zero mode
  default: v = 0.5 + 1.5 * u;
  }
  if (o.wide) { u64 g = mix(o.dseed ^ 0x5ca1ab1e, (u64)arg); int m = o.ty ? 2 : 4; const char* role = kernels()[o.k].d->A[arg].role; // wide: mesh spacings per direction and fields as a whole differ by orders of magnitude
    if (o.wide == 2 && !strcmp(role, "dx")) v *= unit_scale(o); // other units: every spacing is tiny or huge, their ratios ordinary
    else if (!strcmp(role, "dx")) v *= std::pow(10.0, (int)(mix(g, i) % (unsigned)(2 * m + 1)) - m); else if (g >> 60 < 6) v *= std::pow(10.0, (int)(g % (unsigned)(2 * m + 1)) - m); }
  return o.ty == 1 ? (double)(float)v : v;
}
static bool positive_role(const char* r) { return !strcmp(r, "b0") || !strcmp(r, "b1") || !strcmp(r, "b2") || !strcmp(r, "d0") || !strcmp(r, "d1") || !strcmp(r, "d2") || !strcmp(r, "dx") || !strcmp(r, "a") || !strcmp(r, "acoef"); }

static bool valid_harness(const KInfo&, const Op&);
static int roleidx(const KernelD& d, const char* r) { for (int i = 0; i < d.nargs; i++) if (!strcmp(d.A[i].role, r)) return i; return -1; }
static std::string rn(const char* b, int d) { return std::string(b) + char('0' + d); }
// the normal directions of a face / edge / corner, and the side of each (-1: tangential)
static void seg_normals(int D, int type, int face, int nd[3]) {
  nd[0] = nd[1] = nd[2] = -1;
  if (type == 1) nd[face / 2] = face % 2;
  else if (D == 2) { nd[0] = face & 1; nd[1] = face >> 1; }
  else if (type == 2) { int ax = face < 4 ? 2 : face < 8 ? 1 : 0, q = face & 3, d0 = ax == 0 ? 1 : 0, d1 = ax == 2 ? 1 : 2; nd[d0] = q & 1; nd[d1] = q >> 1; }
  else { nd[0] = face & 1; nd[1] = face >> 1 & 1; nd[2] = face >> 2 & 1; }
}
// the device kernels clip a segment to the box along it, where some references leave that to the caller
static bool device_clips(const KInfo& K) { return K.cls.compare(0, 13, "cd_correct_bc") == 0 && K.dim > 1 && (K.mth == "set_bc" || K.mth == "set_poisson_bc"); }
bool prepare(const Op& o, Prep& p, size_t maxcells) {
  const KInfo& K = kernels()[o.k]; const KernelD& d = *K.d; p = Prep();
  if (!K.ref) { p.why = "no reference"; return false; }
  if (K.harness && !valid_harness(K, o)) { p.why = "not a valid call"; return false; }
  std::vector<long> iv = o.iv; size_t tot = 0;
  for (int i = 0; i < d.nargs; i++) {
    const ArgD& a = d.A[i]; if (a.kind != 'I' && a.kind != 'D') continue;
    long dm[8][2]; d.D(iv.data(), i, dm); size_t n = 1; for (int q = 0; q < a.nd; q++) { long e = dm[q][1] - dm[q][0] + 1; if (e < 0) e = 0; if (e > 4000000) { p.why = "too big"; return false; } n *= (size_t)e; if (n > maxcells) { p.why = "too big"; return false; } }
    tot += n; if (tot > maxcells) { p.why = "too big"; return false; }
    if (a.kind == 'I') p.isz[i] = n; else { ArrP x; x.arg = i; x.out = a.out; x.n = n; p.arrs.push_back(std::move(x)); }
  }
  bool solves = K.base.find("cellblockjacobi") == 0 || K.base.find("ccellblkjacobi") == 0; long ndof = 0; for (int i = 0; i < d.nargs; i++) if (!strcmp(d.A[i].role, "ndof")) ndof = iv[i];
  ref_reset();
  std::vector<void*> ptr(d.nargs, nullptr); std::vector<double> dv(d.nargs); std::vector<int> sv(d.nargs); 
  for (int i = 0; i < d.nargs; i++) { const ArgD& a = d.A[i];
    if (a.kind == 'i') { sv[i] = (int)iv[i]; ptr[i] = &sv[i]; }
    else if (a.kind == 'd') { dv[i] = o.ty == 1 ? (double)(float)o.dv[i] : o.dv[i]; ptr[i] = &dv[i]; }
    else if (a.kind == 'I') { size_t n = p.isz[i]; int* q = (int*)ref_alloc(n * 4); auto it = o.ia.find(i); for (size_t j = 0; j < n; j++) q[j] = it != o.ia.end() && j < it->second.size() ? it->second[j] : 0; ptr[i] = q; } }
  for (auto& x : p.arrs) { double* q = (double*)ref_alloc(x.n * 8); bool pos = positive_role(d.A[x.arg].role); x.init.resize(x.n); for (size_t j = 0; j < x.n; j++) q[j] = x.init[j] = gen_val(o, x.arg, j, pos); ptr[x.arg] = q; 
    if (solves && !strcmp(d.A[x.arg].role, "stencil")) { // keep the blocks well conditioned: first entry is the diagonal
      long dm[8][2]; d.D(iv.data(), x.arg, dm); size_t n0 = (size_t)(dm[0][1] - dm[0][0] + 1), n1 = ndof > 0 ? (size_t)(ndof * ndof) : 1;
      for (size_t j = 0; n0 && j < x.n; j += n0) if (ndof <= 0 || (j / n0) % n1 % (size_t)(ndof + 1) == 0) q[j] = x.init[j] = x.init[j] + 40; } }
  if (device_clips(K) && o.impl == 0) { int ti = roleidx(d, "type"), fi = roleidx(d, "face"), nd[3], *a = (int*)ptr[roleidx(d, "seglo")], *b = (int*)ptr[roleidx(d, "seghi")]; seg_normals(K.dim, ti < 0 ? 1 : (int)iv[ti], fi < 0 ? 0 : (int)iv[fi], nd);
    for (int q = 0; q < K.dim; q++) if (nd[q] < 0) { a[q] = std::max(a[q], (int)iv[roleidx(d, rn("lo", q).c_str())]); b[q] = std::min(b[q], (int)iv[roleidx(d, rn("hi", q).c_str())]); } }
  std::string why; auto exec = [&] { p.ok = ref_run([&] { if (K.harness) ((void (*)(void**))K.ref)(ptr.data()); else call_fortran(K.ref, ptr.data(), d.nargs); }, why, p.refsteps); return p.ok; };
  exec();
  if (!p.ok) { p.why = why; return false; }
  double maxin = 1, maxexp = 0;
  for (auto& x : p.arrs) {
    u8* b = ref_bits(ptr[x.arg]); x.bits.resize(x.n); x.exp.assign((double*)ptr[x.arg], (double*)ptr[x.arg] + x.n);
    for (size_t j = 0; j < x.n; j++) { u8 v = b[2 * j] | b[2 * j + 1]; if (ndof > 0 && !x.out) v |= 5; /* read inside the run-time library */ x.bits[j] = v; p.cells++; if (v & 4) maxin = std::max(maxin, std::fabs(x.init[j]));
      if (v & 2) { p.written++; if (v & 1) p.overwrite = false; if (!x.out) { p.ok = false; p.why = "reference writes an input"; return false; } double e = x.exp[j]; if (!std::isfinite(e) || std::fabs(e) > (o.wide == 2 ? o.ty ? 1e36 : 1e140 : o.wide ? 1e30 : 1e7)) { p.ok = false; p.why = "reference result not finite or ill-conditioned"; return false; } maxexp = std::max(maxexp, std::fabs(e)); } } }
  for (auto& x : p.arrs) x.tol = (o.ty ? 2e-4 : 1e-10) * (maxin + maxexp);
  if (o.wide) { // no common scale: judge against the sensitivity of the specification to relative perturbations of its inputs
    const double dl = 1e-10, lev = o.ty ? 1e-4 : 1e-12; std::vector<double> mx(p.arrs.size(), 0.0);
    for (int t = 0; t < 5; t++) {
      for (int i = 0; i < d.nargs; i++) if (d.A[i].kind == 'd') { double v = o.ty == 1 ? (double)(float)o.dv[i] : o.dv[i]; dv[i] = v * (1 + dl * (2.0 * (mix(t + 77, i) >> 11) / 9007199254740992.0 - 1)); }
      for (auto& x : p.arrs) { double* q = (double*)ptr[x.arg]; for (size_t j = 0; j < x.n; j++) q[j] = x.init[j] * (1 + dl * (2.0 * (mix(t * 131 + x.arg, j) >> 11) / 9007199254740992.0 - 1)); }
      if (!exec()) { p.why = why; return false; }
      for (size_t a = 0; a < p.arrs.size(); a++) { auto& x = p.arrs[a]; const double* q = (const double*)ptr[x.arg]; if (x.out) for (size_t j = 0; j < x.n; j++) if (x.bits[j] & 2) { double e = std::fabs(q[j] - x.exp[j]); if (!(e <= (o.wide == 2 ? 1e140 : 1e30))) { p.ok = false; p.why = "reference result not finite or ill-conditioned"; return false; } mx[a] = std::max(mx[a], std::max(e / dl, std::fabs(x.exp[j]))); } } }
    for (size_t a = 0; a < p.arrs.size(); a++) p.arrs[a].tol = lev * mx[a]; }
  // cells whose content must not matter
  if (o.poison) for (auto& x : p.arrs) for (size_t j = 0; j < x.n; j++) if (!(x.bits[j] & 1)) { x.init[j] = NAN; if (!(x.bits[j] & 2)) x.exp[j] = NAN; }
  return true;
}

// ---- generation
static long gen_lo(Rng& r) { double u = r.unit(); if (u < .15) return 0; if (u < .25) return 1; if (u < .9) return r.range(-7, 12); if (u < .98) return r.range(-1500, 1500); long m = 1l << r.range(11, 29); return r.range(-m, m); }
static long gen_ext(Rng& r, int D, int d, int longdim, int sc) {
  if (sc == 5) return d == longdim ? (D == 3 ? r.range(32800, 40000) : r.range(32800, 90000)) : r.range(1, D == 2 ? 6 : 3); // needles: one index beyond 16 bits
  if (sc >= 4) return D == 1 ? r.range(530000, 1200000) : D == 2 ? r.range(730, 1060) : r.range(84, 104);
  if (sc >= 3) return D == 1 ? r.range(20000, 200000) : D == 2 ? r.range(150, 450) : r.range(25, 52);
  if (sc == 1) return D == 1 ? r.range(700, 6000) : D == 2 ? r.range(28, 90) : r.range(8, 21); // a few thousand cells
  if (sc >= 2 && d == longdim) return r.range(40, D == 1 ? 4000 : D == 2 ? 300 : 80);
  if (sc >= 2) return r.range(1, D == 2 ? 40 : 9);
  if (d == longdim && r.chance(.25)) return r.range(15, D == 1 ? 300 : 48);
  double u = r.unit(); if (u < .15) return 1; if (u < .3) return 2; if (u < .75) return r.range(2, 6); return r.range(5, D == 3 ? 9 : 14);
}
#include "gen_harness.inc"
static void gen_wide(Rng& r, Op& o) { o.wide = r.chance(.35) ? 2 : 1; if (o.pattern == 5) o.pattern = 0; const KernelD& d = *kernels()[o.k].d; for (int i = 0; i < d.nargs; i++) if (d.A[i].kind == 'd' && r.chance(.7)) o.dv[i] *= std::pow(10.0, (double)r.range(-4, 4)); }
Op gen_op(Rng& r, int k, int sc) {
  const KInfo& K = kernels()[k]; const KernelD& d = *K.d; int D = K.dim; Op o; o.k = k; o.dseed = r.next(); o.iv.assign(d.nargs, 0); o.dv.assign(d.nargs, 0.0);
  { double u = r.unit(); o.pattern = u < .6 ? 0 : u < .75 ? 1 : u < .85 ? 2 : u < .93 ? 4 : u < .97 ? 3 : 5; }
  if (K.harness) { gen_harness(r, o, K, sc); if ((K.cls == "C08" || K.cls == "C10") && r.chance(.06)) gen_wide(r, o); return o; }
  auto set = [&](const std::string& n, long v) { int i = roleidx(d, n.c_str()); if (i >= 0) o.iv[i] = v; };
  auto has = [&](const std::string& n) { return roleidx(d, n.c_str()) >= 0; };
  long lo[3] = {0, 0, 0}, hi[3] = {0, 0, 0}; int longdim = (int)r.below(D);
  if (K.base == "linearextrap") longdim = (int)r.below(3);
  for (int i = 0; i < D; i++) { lo[i] = gen_lo(r); hi[i] = lo[i] + gen_ext(r, D, i, longdim, sc) - 1; set(rn("lo", i), lo[i]); set(rn("hi", i), hi[i]); }
  int dir = (int)r.below(D), side = (int)r.below(2); set("dir", dir); set("side", side);
  { static const int bt[] = {0, 1, 4}; set("btype", bt[r.below(3)]); }
  set("order", r.chance(.06) ? 0 : r.range(1, 2)); set("iorder", r.range(1, 2));
  { static const int rr[] = {1, 2, 2, 2, 3, 4, 4, 5, 6, 8}; set("r", r.chance(.93) ? rr[r.below(10)] : r.range(7, 24)); }
  set("color", r.below(2)); set("axis", r.below(D)); set("ndof", r.range(1, 3)); set("size", r.range(1, 7));
  // ghosts
  for (int i = 0; i < d.nargs; i++) { const char* q = d.A[i].role; size_t L = strlen(q); if (d.A[i].kind == 'i' && L >= 3 && !strcmp(q + L - 3, "gcw")) { double u = r.unit(); o.iv[i] = u < .12 ? 0 : u < .5 ? 1 : u < .85 ? r.range(2, 3) : u < .98 ? r.range(4, 5) : r.range(6, 12); if (sc == 5) o.iv[i] = r.below(2); } }
  // coefficient boxes
  for (const char* b : {"bi", "ai", "s", "f", "u"}) for (int i = 0; i < D; i++) if (has(rn((std::string(b) + "lo").c_str(), i))) { set(rn((std::string(b) + "lo").c_str(), i), lo[i] - r.range(0, 3)); set(rn((std::string(b) + "hi").c_str(), i), hi[i] + r.range(0, 3)); }
  // stencils
  { int full = D == 1 ? 3 : D == 2 ? 9 : 27; int star = 2 * D + 1; long ss = r.chance(.5) ? star : r.range(1, full); if (K.base.find("crsfine") != std::string::npos) ss = r.chance(.5) ? star : full; set("stencilsize", ss); int ni = roleidx(d, "noffsets"); if (ni >= 0) o.iv[ni] = r.chance(.7) ? ss : r.range(1, ss); }
  for (int i = 0; i < D; i++) { static const char* ijk[] = {"i", "j", "k"}; set(ijk[i], r.range(lo[i], hi[i])); }
  // boundary patch
  if (has("plo0")) {
    for (int i = 0; i < D; i++) {
      long a, b; if (i == dir) { a = b = side == 0 ? lo[i] - 1 : hi[i] + 1; }
      else { if (r.chance(.5)) { a = lo[i]; b = hi[i]; } else { a = r.range(lo[i], hi[i]); b = r.range(a, hi[i]); } if (r.chance(.04)) { a -= 1; } if (r.chance(.04)) b += 1; }
      if (r.chance(.15)) { a = r.range(lo[i] - 1, hi[i] + 1); b = i == dir ? (r.chance(.7) ? a : r.range(a, hi[i] + 1)) : r.range(a, hi[i] + 1); }
      set(rn("plo", i), a); set(rn("phi", i), b); } }
  // boundary segments
  int sl = roleidx(d, "seglo"), sh = roleidx(d, "seghi");
  if (sl >= 0) {
    int types = has("type") ? D : 1; int type = 1 + (int)r.below(types); int face = 0; std::vector<int> a(3), b(3);
    bool corner = K.mth == "set_corner_bc"; bool freeseg = K.base == "linearextrap";
    if (type == 1) face = (int)r.below(2 * D); else if (D == 2) face = (int)r.below(4); else face = (int)r.below(type == 2 ? 12 : 8);
    int nd[3]; seg_normals(D, type, face, nd);
    // a segment may overhang the box only where it is clipped to the box
    bool over = freeseg || device_clips(K) || K.mth == "set_homogenous_bc"; bool anywhere = r.chance(corner ? .5 : .08);
    for (int i = 0; i < D; i++) {
      if (nd[i] >= 0) { a[i] = b[i] = (int)(anywhere ? r.range(lo[i] - 2, hi[i] + 2) : nd[i] ? hi[i] + 1 : lo[i] - 1); if (corner || r.chance(.03)) b[i] = a[i] + (int)r.range(0, 1); }
      else { a[i] = (int)r.range(lo[i], hi[i]); b[i] = (int)r.range(a[i], hi[i]); if (r.chance(.4)) { a[i] = (int)lo[i]; b[i] = (int)hi[i]; } if (over && r.chance(.15)) a[i] -= (int)r.range(0, 2); if (over && r.chance(.15)) b[i] += (int)r.range(0, 2);
        if (over && r.chance(.06)) { if (r.chance(.5)) { a[i] = (int)hi[i] + (int)r.range(0, 4); b[i] = a[i] + (int)r.range(0, 3); } else { b[i] = (int)lo[i] - (int)r.range(0, 4); a[i] = b[i] - (int)r.range(0, 3); } } } }
    set("face", face); set("type", type); o.ia[sl] = a; o.ia[sh] = b; if (K.mth == "set_homogenous_bc") set("order", r.range(1, 4));
    if (K.base == "linearextrap") set("type", r.range(1, 2));
  }
  // coarse/fine
  if (has("clo0")) {
    std::vector<int> ratio(3); bool corner = !has("axis"); int axis = has("axis") ? (int)o.iv[roleidx(d, "axis")] : 0; bool al = r.chance(.5);
    for (int i = 0; i < 3; i++) { ratio[i] = (int)(r.chance(.85) ? r.range(1, 5) : r.range(6, 16)); long c0, c1, f0, f1; 
      if (r.chance(.8)) c0 = r.range(-6, 8); else if (r.chance(.7)) c0 = r.range(-300, 300); else { long M = 1l << r.range(8, 29); c0 = r.range(-M, M) / ratio[i]; } long m = i == axis && !corner ? (sc >= 3 ? r.range(20, 20000) : sc >= 2 ? r.range(20, 400) : r.range(1, 9)) : (r.chance(.5) ? 1 : r.range(1, 3)); c1 = c0 + m - 1; f0 = c0 * ratio[i]; f1 = c1 * ratio[i] + ratio[i] - 1; 
      if (!al) { f0 += r.range(0, ratio[i] - 1); f1 -= r.range(0, ratio[i] - 1); if (f1 < f0) f1 = f0; } else if (r.chance(.3)) f1 = c1 * ratio[i]; if (f1 < f0) f1 = f0;
      if (corner) { f0 = f1 = r.range(c0 * ratio[i] - 2, c0 * ratio[i] + 2); }
      set(rn("clo", i), c0); set(rn("chi", i), c1); set(rn("flo", i), f0); set(rn("fhi", i), f1);
      set(rn("cblo", i), c0 - r.range(0, 2)); set(rn("cbhi", i), c1 + r.range(0, 2)); set(rn("fblo", i), f0 - r.range(0, 3)); set(rn("fbhi", i), f1 + r.range(0, 3)); }
    int ri = roleidx(d, "ratio"); if (ri >= 0) o.ia[ri] = ratio; }
  // blocks
  if (has("bsizex")) { for (int i = 0; i < 3; i++) { std::string q(1, char('x' + i)); long bs = r.range(1, 3), bn = r.range(1, 3); set("bsize" + q, bs); set("bnum" + q, bn); hi[i] = lo[i] + bs * bn - 1; set(rn("hi", i), hi[i]); int bi = roleidx(d, ("bdisp" + q).c_str()); if (bi >= 0) { std::vector<int> v; for (long z = 0; z < bn; z++) v.push_back((int)(z * bs)); o.ia[bi] = v; }
      for (const char* b : {"f", "u"}) if (has(rn((std::string(b) + "lo").c_str(), i))) { set(rn((std::string(b) + "lo").c_str(), i), lo[i] - r.range(0, 3)); set(rn((std::string(b) + "hi").c_str(), i), hi[i] + r.range(0, 3)); } } if (has("stencilsize")) set("stencilsize", r.range(1, 9)); }
  // remaining integer arrays: stencil offsets
  for (int i = 0; i < d.nargs; i++) if (d.A[i].kind == 'I' && !o.ia.count(i)) { long dm[8][2]; d.D(o.iv.data(), i, dm); long n = 1; for (int q = 0; q < d.A[i].nd; q++) n *= std::max(0l, dm[q][1] - dm[q][0] + 1);
      std::vector<int> v(std::max(0l, n)); bool star = r.chance(.5); for (long j = 0; j < n; j++) v[j] = (int)r.range(-1, 1);
      if (star) for (long j = 0; j < n; j++) { long s = j / D, c = j % D; v[j] = s == 0 ? 0 : ((s - 1) / 2 % D == c ? ((s - 1) % 2 ? 1 : -1) : 0); }
      for (long j = 0; j < n && j < D; j++) v[j] = 0; o.ia[i] = v; }
  // doubles
  for (int i = 0; i < d.nargs; i++) if (d.A[i].kind == 'd') { double v = 0.3 + 1.7 * r.unit(); if (r.chance(.1)) v = 1; if ((!strcmp(d.A[i].role, "alpha") || !strcmp(d.A[i].role, "beta")) && r.chance(.05)) v = 0; else if (sl < 0 && r.chance(.1)) v = -v; o.dv[i] = v; }
  if (r.chance(.08)) gen_wide(r, o);
  return o;
}

// ---- text form
static std::string dhex(double v) { char b[64]; snprintf(b, sizeof b, "%a", v); return b; }
std::string op_text(const Op& o) {
  const KernelD& d = *kernels()[o.k].d; std::ostringstream s; s << "op " << d.name << " impl " << (o.impl ? "fortran" : "device") << " type " << (o.ty ? "float" : "double") << " dseed " << o.dseed << " pattern " << o.pattern << " poison " << o.poison << " share " << o.share << " wide " << o.wide << "\n";
  for (int i = 0; i < d.nargs; i++) { const ArgD& a = d.A[i]; if (a.kind == 'i') s << " arg " << i << " " << a.role << " " << o.iv[i] << "\n"; else if (a.kind == 'd') s << " arg " << i << " " << a.role << " " << dhex(o.dv[i]) << "\n";
    else if (a.kind == 'I') { auto it = o.ia.find(i); s << " arg " << i << " " << a.role; if (it != o.ia.end()) for (int v : it->second) s << " " << v; s << "\n"; } }
  return s.str();
}
std::string case_text(const Case& c) {
  std::ostringstream s; s << "SIMCASE 1\nprop " << c.prop << "\nflags " << c.flags << "\nfmode " << c.fmode << "\n";
  for (auto& k : c.callers) { s << "caller threads " << k.nthreads << "\n"; for (auto& o : k.ops) s << op_text(o); }
  s << "sched " << POLICY_NAME[c.sched.policy] << " seed " << c.sched.seed << " param " << c.sched.param << " explicit " << c.sched.explicit_ << "\n";
  if (c.sched.explicit_) for (auto& d : c.sched.dec) s << "decide step " << d.first << " run " << d.second << "\n";
  for (auto& f : c.faults) s << "fault " << FAULT_NAME[f.kind] << " at " << f.at << " arg " << f.arg << " " << f.arg2 << "\n";
  s << "end\n"; return s.str();
}
bool case_parse(const std::string& t, Case& c, std::string& err) {
  std::istringstream in(t); std::string line; c = Case(); bool end = false;
  while (std::getline(in, line)) { std::istringstream l(line); std::string w, x; l >> w; if (w.empty() || w[0] == '#') continue;
    if (w == "SIMCASE") continue; else if (w == "prop") l >> c.prop; else if (w == "flags") l >> c.flags; else if (w == "fmode") l >> c.fmode;
    else if (w == "caller") { CallerC k; l >> x >> k.nthreads; c.callers.push_back(k); }
    else if (w == "op") { std::string n, im, ty; Op o; int po; l >> n >> x >> im >> x >> ty >> x >> o.dseed >> x >> o.pattern >> x >> po >> x >> o.share; if (l >> x) l >> o.wide; o.poison = po; o.impl = im == "fortran"; o.ty = ty == "float"; o.k = kernel_by_name(n); if (o.k < 0 || c.callers.empty()) { err = "unknown kernel " + n; return false; } o.iv.assign(kernels()[o.k].d->nargs, 0); o.dv.assign(kernels()[o.k].d->nargs, 0); c.callers.back().ops.push_back(o); }
    else if (w == "arg") { int i; std::string role; l >> i >> role; if (c.callers.empty() || c.callers.back().ops.empty()) { err = "arg"; return false; } Op& o = c.callers.back().ops.back(); const KernelD& d = *kernels()[o.k].d; if (i < 0 || i >= d.nargs) { err = "arg"; return false; } if (d.A[i].kind == 'i') l >> o.iv[i]; else if (d.A[i].kind == 'd') { l >> x; o.dv[i] = strtod(x.c_str(), nullptr); } else { int v; auto& q = o.ia[i]; while (l >> v) q.push_back(v); } }
    else if (w == "sched") { std::string p; int e; l >> p >> x >> c.sched.seed >> x >> c.sched.param >> x >> e; c.sched.explicit_ = e; for (int i = 0; i < P_N; i++) if (p == POLICY_NAME[i]) c.sched.policy = i; }
    else if (w == "decide") { u64 s; int t2; l >> x >> s >> x >> t2; c.sched.dec.push_back({s, t2}); }
    else if (w == "fault") { std::string n; Fault f; l >> n >> x >> f.at >> x >> f.arg >> f.arg2; f.kind = -1; for (int i = 0; i < FK_N; i++) if (n == FAULT_NAME[i]) f.kind = i; if (f.kind < 0) { err = "fault"; return false; } c.faults.push_back(f); }
    else if (w == "end") { end = true; break; } else { err = "line: " + line; return false; } }
  if (!end) err = "truncated"; return end;
}

// ---- dense solves used by two smoothers (LAPACK is not part of the code under test)
extern "C" {
void dcopy_(const int* n, const double* x, const int* ix, double* y, const int* iy) { for (int i = 0; i < *n; i++) y[i * *iy] = x[i * *ix]; }
void dgetrf_(const int* m, const int* nn, double* a, const int* lda, int* ip, int* info) { int n = std::min(*m, *nn), L = *lda; *info = 0;
  for (int k = 0; k < n; k++) { int p = k; for (int i = k + 1; i < n; i++) if (std::fabs(a[i + k * L]) > std::fabs(a[p + k * L])) p = i; ip[k] = p + 1; if (a[p + k * L] == 0) { *info = k + 1; return; }
    if (p != k) for (int j = 0; j < n; j++) std::swap(a[p + j * L], a[k + j * L]);
    for (int i = k + 1; i < n; i++) { a[i + k * L] /= a[k + k * L]; for (int j = k + 1; j < n; j++) a[i + j * L] -= a[i + k * L] * a[k + j * L]; } } }
void dgetrs_(const char*, const int* nn, const int* nr, const double* a, const int* lda, const int* ip, double* b, const int* ldb, int* info) { int n = *nn, L = *lda; *info = 0;
  for (int r = 0; r < *nr; r++) { double* x = b + (size_t)r * *ldb; for (int k = 0; k < n; k++) { if (ip[k] - 1 != k) std::swap(x[k], x[ip[k] - 1]); for (int i = k + 1; i < n; i++) x[i] -= a[i + k * L] * x[k]; }
    for (int k = n - 1; k >= 0; k--) { x[k] /= a[k + k * L]; for (int i = 0; i < k; i++) x[i] -= a[i + k * L] * x[k]; } } }
void dgesv_(const int* n, const int* nr, double* a, const int* lda, int* ip, double* b, const int* ldb, int* info) { dgetrf_(n, n, a, lda, ip, info); if (*info == 0) dgetrs_("N", n, nr, a, lda, ip, b, ldb, info); }
}
