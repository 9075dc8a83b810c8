// Iterator programs (C09).  The executor below is a small parallel engine: the
// workers claim chunks of an iterator range in whatever order the schedule
// gives them, move one long-lived iterator between chunks by steps and jumps
// in both directions, and sometimes execute a chunk again.
#include "md_device_span.hpp"
#include "submatrix_iterator.hpp"
#include "transpose_iterator.hpp"
#include "offset_iterator.hpp"
#include "coarse_to_fine_iterator.hpp"
#include "forward_stencil_iterator.hpp"
#include <thrust/device_ptr.h>
#include <atomic>
extern "C" void sim_register_harness(const char*, int, int, void (*)(void**));
namespace {
struct Ar { void** A; int i(int k) const { return *(int*)A[k]; } int n(int k) const { return i(k); } int l(int k) const { return i(4 + k); } int e(int k) const { return i(8 + k); } int t(int k) const { return i(12 + k); }
  int par() const { return i(16); } int ck() const { return i(17); } int m() const { return i(18); } int fi() const { return i(19); } int x() const { return i(20); } };
unsigned hsh(unsigned a, unsigned b) { unsigned h = a * 2654435761u ^ (b + 0x9e3779b9u) * 2246822519u; h ^= h >> 15; h *= 3266489917u; h ^= h >> 13; return h; }
template <bool Laws = true, class T, class It, class St> void engine(const It& first, long n, const Ar& A, T* err, St st) {
  const long ck = A.ck(); const unsigned par = (unsigned)A.par(); *err = 0; std::atomic<int> next{0}, bad{0}; const It end = first + n; const int nchunks = (int)((n + ck - 1) / ck);
  auto at = [&](const It& i, long p) { if constexpr (Laws) return i - first == p && end - i == n - p && i == first + p && (p == n || !(i == end)); else return true; };
  if (!at(first, 0) || !at(end, n)) bad.fetch_add(1);
#pragma omp parallel
  {
    It cur = first; long pos = 0; int nb = 0;
    for (;;) {
      int c = next.fetch_add(1); if (c >= nchunks) break;
      int rounds = hsh(par, c + 77) % 5 == 0 ? 2 : 1;
      for (int q = 0; q < rounds; q++) {
        unsigned h = hsh(par + q, c); long b = (long)c * ck, e = b + ck < n ? b + ck : n; bool back = h >> 9 & 1, sub = (h >> 10 & 3) == 0; long to = back && !sub ? e : b;
        switch (h % 7) {
        case 0: cur = first + to; break;
        case 1: cur = end - (n - to); break;
        case 2: cur += to - pos; break;
        case 3: { long mid = (long)(hsh(h, 5) % (unsigned)(n + 1)); cur += mid - pos; if (!at(cur, mid)) nb++; cur = cur - (mid - to); } break;
        case 4: cur = end; cur -= n - to; break;
        case 5: cur = to >= pos ? cur + (to - pos) : cur - (pos - to); break;
        default: if (to - pos < 200 && pos - to < 200) { while (pos < to) { ++cur; pos++; } while (pos > to) { --cur; pos--; } } else cur += to - pos;
        }
        pos = to;
        if (!at(cur, pos)) nb++;
        if (sub) for (long p = b; p < e; p++) st(p, *(cur + (p - b)));
        else if (back) { while (pos > b) { --cur; --pos; st(pos, *cur); } }
        else { while (pos < e) { st(pos, *cur); ++cur; ++pos; } }
        if (!at(cur, pos)) nb++;
        if (pos == n) { It z = cur; --z; st(n - 1, *z); }
      }
    }
    if (nb) bad.fetch_add(nb);
  }
  *err = (T)bad.load();
}
template <class T> struct Put1 { T* o; template <class R> void operator()(long p, R&& r) const { o[p] = (T)r; } };
template <class T> struct Put2 { T* o; template <class R> void operator()(long p, R&& r) const { o[2 * p] = (T)r.a; o[2 * p + 1] = (T)r.b; } };
template <class T> struct PutW { T* o; int m; template <class R> void operator()(long p, R&& r) const { o[p] = (T)r[m]; } };
template <class T> struct Wr { const T* a; template <class R> void operator()(long p, R&& r) const { r = a[p]; } };
#define ARR const Ar A{V}; T* a = (T*)V[21]; int* of = (int*)V[22]; T* o = (T*)V[23]; T* er = (T*)V[24]; (void)a; (void)of; (void)o; (void)er; thrust::device_ptr<T> d(a); (void)d;
#define SHP int sz[N], lb[N], ub[N], st[N]; long cnt = 1; int cn[N]; for (int q = 0; q < N; q++) { sz[q] = A.n(q); lb[q] = A.l(q); ub[q] = A.e(q); st[q] = A.t(q); cn[q] = (ub[q] - lb[q]) / st[q] + 1; cnt *= cn[q]; }
template <class T, int N> void sub(void** V) { ARR SHP engine(make_submatrix(d, sz, lb, ub, st), cnt, A, er, Put1<T>{o}); }
template <class T, int N> void subw(void** V) { ARR SHP thrust::device_ptr<T> w(o); engine(make_submatrix(w, sz, lb, ub, st), cnt, A, er, Wr<T>{a}); }
template <class T, int... I> void tr(void** V) { constexpr int N = sizeof...(I); ARR SHP engine(make_transpose<I...>(d, sz), cnt, A, er, Put1<T>{o}); }
template <class T, int... I> void trw(void** V) { constexpr int N = sizeof...(I); ARR SHP thrust::device_ptr<T> w(o); engine(make_transpose<I...>(w, sz), cnt, A, er, Wr<T>{a}); }
template <class T, int N, int I> void sts(void** V) { ARR SHP engine(make_submatrix(d, sz, lb, ub, st).template stencil<I>(), cnt / cn[I] * (cn[I] - 1), A, er, Put2<T>{o}); }
template <class T, int N, int I> void std_(void** V) { ARR SHP engine(make_submatrix(d, sz, lb, ub, st).stencil(I), cnt / cn[I] * (cn[I] - 1), A, er, Put2<T>{o}); }
template <class T, int N, int I> void fs(void** V) { ARR SHP int inner = 1; for (int q = I + 1; q < N; q++) inner *= sz[q]; engine(make_forward_stencil(d, inner, inner * (sz[I] - 1), cnt / cn[I] * (cn[I] - 1)), cnt / cn[I] * (cn[I] - 1), A, er, Put2<T>{o}); }
template <class T, int N, int I> void cf(void** V) { ARR SHP engine(make_coarse_to_fine<I, N>(d, sz, lb, A.fi(), A.m()), A.x(), A, er, Put1<T>{o}); }
template <class T, int N> void off(void** V) { ARR SHP long base = 0; int str[N]; for (int q = 0; q < N; q++) { base = base * sz[q] + lb[q]; str[q] = 1; for (int p = q + 1; p < N; p++) str[q] *= sz[p]; } engine(make_offset_iterator(d + base, str, thrust::device_ptr<int>(of)), A.x(), A, er, Put1<T>{o}); }
// spans called with a listing that differs from their storage; element (q) of the box is stored at lower bound -q-1
#define BND(B, q) B{lb[q] - 1 - q, ub[q] - 1 - q, st[q]}
#define FULL(B, q) B{-1 - q, sz[q] - 2 - q}
template <class T, int P> void sp2(void** V) { constexpr int N = 2; ARR SHP auto s = make_md_span(a, FULL(Jb, 0), FULL(Ib, 1)); if constexpr (P == 0) engine(s(BND(Jb, 0), BND(Ib, 1)), cnt, A, er, Put1<T>{o}); else engine(s(BND(Ib, 1), BND(Jb, 0)), cnt, A, er, Put1<T>{o}); }
template <class T, int P> void sp3(void** V) { constexpr int N = 3; ARR SHP auto s = make_md_span(a, FULL(Kb, 0), FULL(Jb, 1), FULL(Ib, 2)); auto k = BND(Kb, 0); auto j = BND(Jb, 1); auto i = BND(Ib, 2); auto go = [&](auto it) { engine(it, cnt, A, er, Put1<T>{o}); };
  if constexpr (P == 0) go(s(k, j, i)); else if constexpr (P == 1) go(s(k, i, j)); else if constexpr (P == 2) go(s(j, k, i)); else if constexpr (P == 3) go(s(j, i, k)); else if constexpr (P == 4) go(s(i, k, j)); else go(s(i, j, k)); }
template <class T, int P> void win(void** V) { const Ar A0{V}; 
  if constexpr (P == 0) { constexpr int N = 2; ARR SHP auto s = make_md_span(a, FULL(Ib, 0), Wb{0, sz[1] - 1}); engine<false>(s.window()(BND(Ib, 0)), cn[0], A, er, PutW<T>{o, A.m()}); }
  else if constexpr (P < 3) { constexpr int N = 3; ARR SHP auto s = make_md_span(a, FULL(Jb, 0), FULL(Ib, 1), Wb{1, sz[2]}); if constexpr (P == 1) engine<false>(s.window()(BND(Jb, 0), BND(Ib, 1)), cn[0] * cn[1], A, er, PutW<T>{o, A.m()}); else engine<false>(s.window()(BND(Ib, 1), BND(Jb, 0)), cn[0] * cn[1], A, er, PutW<T>{o, A.m()}); }
  else { constexpr int N = 4; ARR SHP auto s = make_md_span(a, FULL(Kb, 0), FULL(Jb, 1), FULL(Ib, 2), Wb{0, sz[3] - 1}); auto k = BND(Kb, 0); auto j = BND(Jb, 1); auto i = BND(Ib, 2); long c = (long)cn[0] * cn[1] * cn[2]; if constexpr (P == 3) engine<false>(s.window()(k, j, i), c, A, er, PutW<T>{o, A.m()}); else engine<false>(s.window()(i, k, j), c, A, er, PutW<T>{o, A.m()}); } }
#define OP(name, ...) template <class T> void q_##name(void** V) { __VA_ARGS__(V); } static struct R_##name { R_##name() { sim_register_harness("it_" #name, 0, 0, q_##name<double>); sim_register_harness("it_" #name, 1, 0, q_##name<float>); } } r_##name;
#include "h09_ops.inc"
}
