// Histories over md_device_vector (C18): a list of operations is applied to
// three vectors and an offset table, next to a plain model of their contents.
#include "md_device_vector.hpp"
#include "random.cpp"
#include <new>
#include <utility>
extern "C" void sim_register_harness(const char*, int, int, void (*)(void**));
// device kernels, in h18_k.cpp (md_bounds.hpp cannot be included along with md_device_vector.hpp)
template <class T, int S> struct Dev { static void affine(T* p, const int* b, int g, T m, T c); static void sub(T* p, T* r, const int* b, int g, T c); static void fill(T* p, const int* b, int g, T c); };
void dev_offs(int* p, int no, int nd, int c);
namespace {
constexpr int CAPO = 600;
template <class T> bool eq(T a, T b) { return a == b; }
// builds the vector, spans and index for each shape
template <class T, int S> struct Sh;
template <class T> struct Sh<T, 1> { using V = md_device_vector<T, lazy::dim::I>; static constexpr int N = 1; Ib i; Sh(const int* b) : i{b[0], b[1]} {} V make(int g) const { return g ? make_md_vec<T>(g, i) : make_md_vec<T>(i); }
  int ext(int q, int g) const { return i.last - i.first + 2 * g; } int lb(int q, int g) const { return i.first - g; } int at(const V& v, const int* c) const { return v.index(c[0]); } };
template <class T> struct Sh<T, 2> { using V = md_device_vector<T, lazy::dim::J, lazy::dim::I>; static constexpr int N = 2; Ib i; Jb j; Sh(const int* b) : i{b[0], b[1]}, j{b[2], b[3]} {} V make(int g) const { return g ? make_md_vec<T>(g, j, i) : make_md_vec<T>(j, i); }
  int ext(int q, int g) const { return (q ? i.last - i.first : j.last - j.first) + 2 * g; } int lb(int q, int g) const { return (q ? i.first : j.first) - g; } int at(const V& v, const int* c) const { return v.index(c[0], c[1]); } };
template <class T> struct Sh<T, 3> { using V = md_device_vector<T, lazy::dim::I, lazy::dim::K, lazy::dim::J>; static constexpr int N = 3; Ib i; Jb j; Kb k; Sh(const int* b) : i{b[0], b[1]}, j{b[2], b[3]}, k{b[4], b[5]} {} V make(int g) const { return g ? make_md_vec<T>(g, i, k, j) : make_md_vec<T>(i, k, j); }
  int ext(int q, int g) const { return (q == 0 ? i.last - i.first : q == 1 ? k.last - k.first : j.last - j.first) + 2 * g; } int lb(int q, int g) const { return (q == 0 ? i.first : q == 1 ? k.first : j.first) - g; } int at(const V& v, const int* c) const { return v.index(c[0], c[1], c[2]); } };
template <class T, int S> void vec(void** A) {
  int b[6], b2[6]; for (int q = 0; q < 6; q++) b[q] = b2[q] = *(int*)A[q]; const int g = *(int*)A[6], steps = *(int*)A[7], no = *(int*)A[8], nd = *(int*)A[9], alt = *(int*)A[10]; const int* h = (const int*)A[11]; T* out = (T*)A[12]; out[0] = 0; out[1] = 0; int bad = 0, firstbad = 0, step = 0;
  auto fail = [&] { if (!bad++) firstbad = step + 1; };
  // two shapes: the second one is shifted and up to three cells longer per dimension
  using H = Sh<T, S>; using K = Dev<T, S>; using V = typename H::V; constexpr int N = H::N; for (int q = 0; q < S; q++) { b2[2 * q] += alt & 1; b2[2 * q + 1] += (alt & 1) + (alt >> (1 + q) & 1) * (1 + q); }
  const H sh[2] = {H(b), H(b2)}; const int* bx[2] = {b, b2}; int total[2] = {1, 1}; for (int z = 0; z < 2; z++) for (int q = 0; q < N; q++) total[z] *= sh[z].ext(q, g);
  const int cap = std::max(total[0], total[1]); T* ws = (T*)A[13]; T* val[3] = {ws, ws + cap, ws + 2 * cap}; T* t = ws + 3 * cap; T* off = ws + 4 * cap; T* off2 = off + CAPO; for (int q = 0; q < 4 * cap + 2 * CAPO; q++) ws[q] = 0;
  int z[3] = {0, alt >> 4 & 1, alt >> 5 & 1}; bool dead[3] = {false, false, false};
  // domain of the device kernels: the box without the ghosts, in storage positions
  auto inner = [&](int s, int p) { for (int q = N - 1; q >= 0; q--) { int e = sh[s].ext(q, g), c = p % e; p /= e; if (c < g || c >= e - g) return false; } return true; };
  try {
    V X[3] = {sh[z[0]].make(g), sh[z[1]].make(g), sh[z[2]].make(g)}; auto O = make_offset_vec(no, nd);
    auto shape = [&](const V& x, int s) { if (x.size() != total[s]) fail(); for (int d = 0; d < N; d++) if (x.dim(d) != sh[s].ext(d, g)) fail(); };
    for (int q = 0; q < 3; q++) shape(X[q], z[q]); if (O.size() != no * nd || O.dim(0) != no || O.dim(1) != nd) fail();
    auto eqn = [&](const T* p, const T* m, int n) { for (int q = 0; q < n; q++) if (!eq(p[q], m[q])) { fail(); break; } };
    auto same = [&](const T* p, int v) { eqn(p, val[v], total[z[v]]); };
    auto osame = [&](const int* p, const T* m) { for (int q = 0; q < no * nd; q++) if (p[q] != (int)m[q]) { fail(); break; } };
    auto offs = [&](auto& P, T* m, int n, int c) { int a[] = {c % 9 - 4, c / 9 % 9 - 4, c / 81 % 9 - 4}; n %= no; if (nd == 1) P.set_offset(n, a[0]); else if (nd == 2) P.set_offset(n, a[0], a[1]); else P.set_offset(n, a[0], a[1], a[2]); for (int q = 0; q < nd; q++) m[n * nd + q] = (T)a[q]; };
    for (step = 0; step < steps; step++) {
      const int op = h[4 * step] & 31, s1 = h[4 * step + 1] & 1023, v = s1 % 3, w = (h[4 * step + 2] & 255) % 3, c = h[4 * step + 3]; bool mut = false, reshape = false; V& x = X[v]; if (dead[v] || dead[w]) continue;
      const int n = total[z[v]], nw = total[z[w]];
      try {
        switch (op) {
        case 0: mut = true; { T x0 = (T)(c % 5), x1 = x0 + (c & 3); if (c & 64) x.fill_random(), x0 = 0, x1 = 1; else x.fill_random(x0, x1); auto& hv = x.host(); for (int q = 0; q < n; q++) { val[v][q] = hv[q]; if (!(hv[q] >= x0 && hv[q] <= x1)) { fail(); break; } } same(x.data(), v); } break;
        case 1: case 2: mut = true; { K::affine(x.data(), bx[z[v]], g, T(c & 1 ? 2 : 0.5), T(c % 7)); for (int q = 0; q < n; q++) if (inner(z[v], q)) val[v][q] = val[v][q] * T(c & 1 ? 2 : 0.5) + T(c % 7); } break;
        case 3: if (z[v] == z[w]) { mut = true; T* pr = X[w].data(); K::sub(x.data(), pr, bx[z[v]], g, T(c % 5)); for (int q = 0; q < n; q++) t[q] = inner(z[v], q) ? val[w][q] - T(c % 5) : val[v][q]; for (int q = 0; q < n; q++) val[v][q] = t[q]; } break;
        case 4: mut = true; { K::fill(x.data(), bx[z[v]], g, T(c % 9)); for (int q = 0; q < n; q++) if (inner(z[v], q)) val[v][q] = T(c % 9); } break;
        case 5: same(x.host().data(), v); if ((int)x.host().size() != n) fail(); break;
        case 6: { std::vector<T> u = x; if ((int)u.size() != n) fail(); else same(u.data(), v); } break;
        case 7: { x.host(); const auto& cx = x; same(cx.host_data(), v); same(x.host_data(), v); } break;
        case 8: same(x.data(), v); { const auto& cx = x; same(cx.data(), v); } break;
        case 9: mut = true; reshape = z[v] != z[w]; x = X[w]; z[v] = z[w]; for (int q = 0; q < nw; q++) val[v][q] = val[w][q]; shape(x, z[v]); break;
        case 10: { V y = X[w]; shape(y, z[w]); same(y.host().data(), w); K::affine(y.data(), bx[z[w]], g, T(1), T(1)); V u = y; for (int q = 0; q < nw; q++) if (!eq(u.host()[q], (T)(val[w][q] + (inner(z[w], q) ? 1 : 0)))) { fail(); break; } } break;
        case 11: case 16: if (v != w) { mut = true; if (op == 16) std::swap(X[v], X[w]); else { V u = std::move(X[v]); X[v] = std::move(X[w]); X[w] = std::move(u); } std::swap(val[v], val[w]); std::swap(z[v], z[w]); shape(X[v], z[v]); } break;
        case 12: { int cc[3] = {0, 0, 0}, p = 0; for (int q = 0; q < N; q++) { int e = sh[z[v]].ext(q, g), y = (c >> (4 * q) & 255) % e; cc[q] = sh[z[v]].lb(q, g) + y; p = p * e + y; } if (sh[z[v]].at(x, cc) != p) fail(); else if (!eq(x.host()[sh[z[v]].at(x, cc)], val[v][p])) fail(); } break;
        case 13: offs(O, off, s1, c); break;
        case 14: { dev_offs(O.data(), no, nd, c % 3); for (int q = 0; q < no * nd; q++) off[q] += c % 3; } break;
        case 15: if (c & 1) osame(O.data(), off); else osame(O.host().data(), off); break;
        case 17: { std::vector<V> vv; vv.push_back(X[v]); vv.push_back(X[w]); if (c & 1) vv.insert(vv.begin(), X[w]); V* p = vv.data() + (c & 1); if (c & 2) { K::affine(p[1].data(), bx[z[w]], g, T(2), T(1)); vv.erase(vv.begin()); p = vv.data(); if (c & 1) same(p->host().data(), v); else { shape(*p, z[w]); for (int q = 0; q < nw; q++) if (!eq(p->host()[q], inner(z[w], q) ? (T)(val[w][q] * T(2) + T(1)) : val[w][q])) { fail(); break; } } } else { same(p[0].host().data(), v); same(p[1].host().data(), w); } } break;
        case 18: { V y; if (y.size() != 0) fail(); y = X[w]; shape(y, z[w]); if (c & 1) K::fill(y.data(), bx[z[w]], g, T(3)); V u(std::move(y)); for (int q = 0; q < nw; q++) if (!eq(u.host()[q], (c & 1) && inner(z[w], q) ? T(3) : val[w][q])) { fail(); break; } } break;
        case 19: { const auto& cx = x; shape(cx, z[v]); std::vector<T> u = to_std(thrust::device_vector<T>(x.host())); if ((int)u.size() != n) fail(); else same(u.data(), v); } break;
        case 20: mut = true; { V& y = x; x = y; } break;
        case 21: { auto P = O; for (int q = 0; q < no * nd; q++) off2[q] = off[q]; offs(P, off2, s1, c); if (c & 1) { dev_offs(P.data(), no, nd, 1); for (int q = 0; q < no * nd; q++) off2[q] += 1; offs(P, off2, s1 / 3, c / 2); } osame(P.host().data(), off2); if (c & 2) { osame(O.host().data(), off); } if (c & 4) { std::swap(O, P); for (int q = 0; q < no * nd; q++) std::swap(off[q], off2[q]); } osame(P.data(), off2); } break;
        case 22: { std::vector<int> u = O; if ((int)u.size() != no * nd) fail(); else osame(u.data(), off); int k = s1 % no, d = c % nd; if (O.index(k, d) != k * nd + d) fail(); } break;
        case 23: mut = true; x.host(); same(x.host_data(), v); K::affine(x.data(), bx[z[v]], g, T(0.5), T(2)); for (int q = 0; q < n; q++) if (inner(z[v], q)) val[v][q] = val[v][q] * T(0.5) + T(2); same(x.host().data(), v); same(x.host().data(), v); break;
        case 24: mut = true; { T* p = x.data(); V y = x; K::affine(p, bx[z[v]], g, T(2), T(1)); if (c & 1) { same(y.host().data(), v); } else same(y.data(), v); if (c & 2) K::fill(y.data(), bx[z[v]], g, T(9)); for (int q = 0; q < n; q++) if (inner(z[v], q)) val[v][q] = val[v][q] * T(2) + T(1); if (c & 4) same(x.data(), v); else same(x.host().data(), v); } break; // a copy made between taking the pointer and writing
        default: same(x.host().data(), v); same(X[w].data(), w);
        }
      } catch (const std::bad_alloc&) { // a failed read changes nothing; after a failed write the contents are set anew (a vector that was changing shape is given up)
        if (reshape) dead[v] = true; if (mut) for (int q = 0; q < 3; q++) if (!dead[q]) { auto dv = X[q].data(); for (int p = 0; p < total[z[q]]; p++) dv[p] = val[q][p] = T(p % 7); }
      }
    }
    for (int q = 0; q < 3; q++) if (!dead[q]) same(X[q].data(), q), same(X[q].host().data(), q);
    osame(O.host().data(), off);
  } catch (const std::bad_alloc&) {}
  out[0] = (T)bad; out[1] = (T)firstbad;
}
struct Reg { Reg() {
  sim_register_harness("vec1", 0, 0, vec<double, 1>); sim_register_harness("vec1", 1, 0, vec<float, 1>); sim_register_harness("vec2", 0, 0, vec<double, 2>); sim_register_harness("vec2", 1, 0, vec<float, 2>); sim_register_harness("vec3", 0, 0, vec<double, 3>); sim_register_harness("vec3", 1, 0, vec<float, 3>);
} } reg;
}
