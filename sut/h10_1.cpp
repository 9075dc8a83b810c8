// generated by tools/gen_h.py
#include "md_device_span.hpp"
#include "stencil_proxy.hpp"
#include "offset_iterator.hpp"
extern "C" void sim_register_harness(const char*, int, int, void (*)(void**));
namespace {
template <class T> static void e10_01(void** A) {
  const int lo0 = *(int*)A[0]; (void)lo0;
  const int hi0 = *(int*)A[1]; (void)hi0;
  const int lo1 = *(int*)A[2]; (void)lo1;
  const int hi1 = *(int*)A[3]; (void)hi1;
  const int lo2 = *(int*)A[4]; (void)lo2;
  const int hi2 = *(int*)A[5]; (void)hi2;
  const int w = *(int*)A[6]; (void)w;
  const int w0 = *(int*)A[7]; (void)w0;
  const int s0 = *(int*)A[8]; (void)s0;
  const int s1 = *(int*)A[9]; (void)s1;
  const int s2 = *(int*)A[10]; (void)s2;
  const int gs = *(int*)A[11]; (void)gs;
  const int gu = *(int*)A[12]; (void)gu;
  const int gv = *(int*)A[13]; (void)gv;
  const int gc = *(int*)A[14]; (void)gc;
  const int gr = *(int*)A[15]; (void)gr;
  const int xl0 = *(int*)A[16]; (void)xl0;
  const int xh0 = *(int*)A[17]; (void)xh0;
  const int xl1 = *(int*)A[18]; (void)xl1;
  const int xh1 = *(int*)A[19]; (void)xh1;
  const int xl2 = *(int*)A[20]; (void)xl2;
  const int xh2 = *(int*)A[21]; (void)xh2;
  const int yl0 = *(int*)A[22]; (void)yl0;
  const int yh0 = *(int*)A[23]; (void)yh0;
  const int yl1 = *(int*)A[24]; (void)yl1;
  const int yh1 = *(int*)A[25]; (void)yh1;
  const int yl2 = *(int*)A[26]; (void)yl2;
  const int yh2 = *(int*)A[27]; (void)yh2;
  const int n1 = *(int*)A[28]; (void)n1;
  const int n2 = *(int*)A[29]; (void)n2;
  const T a = *(T*)A[30]; (void)a;
  const T b = *(T*)A[31]; (void)b;
  const T h0 = *(T*)A[32]; (void)h0;
  const T h1 = *(T*)A[33]; (void)h1;
  const T h2 = *(T*)A[34]; (void)h2;
  int* offs_ = (int*)A[35]; (void)offs_;
  T* st_ = (T*)A[36]; (void)st_;
  const T* ti_ = (const T*)A[37]; (void)ti_;
  const T* u_ = (const T*)A[38]; (void)u_;
  const T* v_ = (const T*)A[39]; (void)v_;
  const T* c_ = (const T*)A[40]; (void)c_;
  T* r_ = (T*)A[41]; (void)r_;
  T* q_ = (T*)A[42]; (void)q_;
  const auto i = Ib{lo0, hi0};
  const auto wb = Wb{w0, w0 + w - 1}; auto o = thrust::device_ptr<int>(offs_); (void)o;
  auto st = make_md_span(st_, gs, Ib{lo0 - yl0, hi0 + yh0}, wb); (void)st;
  auto ti = make_md_span(ti_, gs, Ib{lo0 - yl0, hi0 + yh0}, wb); (void)ti;
  auto u = make_md_span(u_, gu, Ib{lo0 - xl0, hi0 + xh0 + 1}); (void)u;
  auto v = make_md_span(v_, gv, i + 1); (void)v;
  auto c = make_md_span(c_, gc, i); (void)c;
  auto r = make_md_span(r_, gr, Ib{lo0 - yl0, hi0 + yh0}); (void)r;
  auto q = make_md_span(q_, gr, Ib{lo0 - xl0, hi0 + xh0 + 1}); (void)q;
  with_domain(st.window(), i)(st(2) = (st(3) * (u / (3 * c))));
  }
template <class T> static void e10_09(void** A) {
  const int lo0 = *(int*)A[0]; (void)lo0;
  const int hi0 = *(int*)A[1]; (void)hi0;
  const int lo1 = *(int*)A[2]; (void)lo1;
  const int hi1 = *(int*)A[3]; (void)hi1;
  const int lo2 = *(int*)A[4]; (void)lo2;
  const int hi2 = *(int*)A[5]; (void)hi2;
  const int w = *(int*)A[6]; (void)w;
  const int w0 = *(int*)A[7]; (void)w0;
  const int s0 = *(int*)A[8]; (void)s0;
  const int s1 = *(int*)A[9]; (void)s1;
  const int s2 = *(int*)A[10]; (void)s2;
  const int gs = *(int*)A[11]; (void)gs;
  const int gu = *(int*)A[12]; (void)gu;
  const int gv = *(int*)A[13]; (void)gv;
  const int gc = *(int*)A[14]; (void)gc;
  const int gr = *(int*)A[15]; (void)gr;
  const int xl0 = *(int*)A[16]; (void)xl0;
  const int xh0 = *(int*)A[17]; (void)xh0;
  const int xl1 = *(int*)A[18]; (void)xl1;
  const int xh1 = *(int*)A[19]; (void)xh1;
  const int xl2 = *(int*)A[20]; (void)xl2;
  const int xh2 = *(int*)A[21]; (void)xh2;
  const int yl0 = *(int*)A[22]; (void)yl0;
  const int yh0 = *(int*)A[23]; (void)yh0;
  const int yl1 = *(int*)A[24]; (void)yl1;
  const int yh1 = *(int*)A[25]; (void)yh1;
  const int yl2 = *(int*)A[26]; (void)yl2;
  const int yh2 = *(int*)A[27]; (void)yh2;
  const int n1 = *(int*)A[28]; (void)n1;
  const int n2 = *(int*)A[29]; (void)n2;
  const T a = *(T*)A[30]; (void)a;
  const T b = *(T*)A[31]; (void)b;
  const T h0 = *(T*)A[32]; (void)h0;
  const T h1 = *(T*)A[33]; (void)h1;
  const T h2 = *(T*)A[34]; (void)h2;
  int* offs_ = (int*)A[35]; (void)offs_;
  T* st_ = (T*)A[36]; (void)st_;
  const T* ti_ = (const T*)A[37]; (void)ti_;
  const T* u_ = (const T*)A[38]; (void)u_;
  const T* v_ = (const T*)A[39]; (void)v_;
  const T* c_ = (const T*)A[40]; (void)c_;
  T* r_ = (T*)A[41]; (void)r_;
  T* q_ = (T*)A[42]; (void)q_;
  const auto i = Ib{lo0, hi0};
  const auto wb = Wb{w0, w0 + w - 1}; auto o = thrust::device_ptr<int>(offs_); (void)o;
  auto st = make_md_span(st_, gs, Ib{lo0 - yl0, hi0 + yh0}, wb); (void)st;
  auto ti = make_md_span(ti_, gs, Ib{lo0 - yl0, hi0 + yh0}, wb); (void)ti;
  auto u = make_md_span(u_, gu, Ib{lo0 - xl0, hi0 + xh0}); (void)u;
  auto v = make_md_span(v_, gv, i); (void)v;
  auto c = make_md_span(c_, gc, i); (void)c;
  auto r = make_md_span(r_, gr, Ib{lo0 - yl0, hi0 + yh0 + 1}); (void)r;
  auto q = make_md_span(q_, gr, Ib{lo0 - xl0, hi0 + xh0 + 1}); (void)q;
  with_domain(ti.window(), Ib{lo0, hi0, s0})(r -= (ti(2) * ti(1)));
  }
template <class T> static void e10_17(void** A) {
  const int lo0 = *(int*)A[0]; (void)lo0;
  const int hi0 = *(int*)A[1]; (void)hi0;
  const int lo1 = *(int*)A[2]; (void)lo1;
  const int hi1 = *(int*)A[3]; (void)hi1;
  const int lo2 = *(int*)A[4]; (void)lo2;
  const int hi2 = *(int*)A[5]; (void)hi2;
  const int w = *(int*)A[6]; (void)w;
  const int w0 = *(int*)A[7]; (void)w0;
  const int s0 = *(int*)A[8]; (void)s0;
  const int s1 = *(int*)A[9]; (void)s1;
  const int s2 = *(int*)A[10]; (void)s2;
  const int gs = *(int*)A[11]; (void)gs;
  const int gu = *(int*)A[12]; (void)gu;
  const int gv = *(int*)A[13]; (void)gv;
  const int gc = *(int*)A[14]; (void)gc;
  const int gr = *(int*)A[15]; (void)gr;
  const int xl0 = *(int*)A[16]; (void)xl0;
  const int xh0 = *(int*)A[17]; (void)xh0;
  const int xl1 = *(int*)A[18]; (void)xl1;
  const int xh1 = *(int*)A[19]; (void)xh1;
  const int xl2 = *(int*)A[20]; (void)xl2;
  const int xh2 = *(int*)A[21]; (void)xh2;
  const int yl0 = *(int*)A[22]; (void)yl0;
  const int yh0 = *(int*)A[23]; (void)yh0;
  const int yl1 = *(int*)A[24]; (void)yl1;
  const int yh1 = *(int*)A[25]; (void)yh1;
  const int yl2 = *(int*)A[26]; (void)yl2;
  const int yh2 = *(int*)A[27]; (void)yh2;
  const int n1 = *(int*)A[28]; (void)n1;
  const int n2 = *(int*)A[29]; (void)n2;
  const T a = *(T*)A[30]; (void)a;
  const T b = *(T*)A[31]; (void)b;
  const T h0 = *(T*)A[32]; (void)h0;
  const T h1 = *(T*)A[33]; (void)h1;
  const T h2 = *(T*)A[34]; (void)h2;
  int* offs_ = (int*)A[35]; (void)offs_;
  T* st_ = (T*)A[36]; (void)st_;
  const T* ti_ = (const T*)A[37]; (void)ti_;
  const T* u_ = (const T*)A[38]; (void)u_;
  const T* v_ = (const T*)A[39]; (void)v_;
  const T* c_ = (const T*)A[40]; (void)c_;
  T* r_ = (T*)A[41]; (void)r_;
  T* q_ = (T*)A[42]; (void)q_;
  const auto i = Ib{lo0, hi0};
  const auto j = Jb{lo1, hi1};
  const auto wb = Wb{w0, w0 + w - 1}; auto o = thrust::device_ptr<int>(offs_); (void)o;
  auto st = make_md_span(st_, gs, Ib{lo0 - yl0, hi0 + yh0}, Jb{lo1 - yl1, hi1 + yh1}, wb); (void)st;
  auto ti = make_md_span(ti_, gs, Ib{lo0 - yl0, hi0 + yh0}, Jb{lo1 - yl1, hi1 + yh1}, wb); (void)ti;
  auto u = make_md_span(u_, gu, Ib{lo0 - xl0, hi0 + xh0 + 1}, Jb{lo1 - xl1, hi1 + xh1}); (void)u;
  auto v = make_md_span(v_, gv, j, i); (void)v;
  auto c = make_md_span(c_, gc, i, j + 1); (void)c;
  auto r = make_md_span(r_, gr, Jb{lo1 - yl1, hi1 + yh1}, Ib{lo0 - yl0, hi0 + yh0}); (void)r;
  auto q = make_md_span(q_, gr, Ib{lo0 - xl0, hi0 + xh0}, Jb{lo1 - xl1, hi1 + xh1}); (void)q;
  with_domain(st.window(), j, i)(st(0) = (2 / (c + 2)), st(3) = (u - (st(0) - st(1))));
  }
template <class T> static void e10_25(void** A) {
  const int lo0 = *(int*)A[0]; (void)lo0;
  const int hi0 = *(int*)A[1]; (void)hi0;
  const int lo1 = *(int*)A[2]; (void)lo1;
  const int hi1 = *(int*)A[3]; (void)hi1;
  const int lo2 = *(int*)A[4]; (void)lo2;
  const int hi2 = *(int*)A[5]; (void)hi2;
  const int w = *(int*)A[6]; (void)w;
  const int w0 = *(int*)A[7]; (void)w0;
  const int s0 = *(int*)A[8]; (void)s0;
  const int s1 = *(int*)A[9]; (void)s1;
  const int s2 = *(int*)A[10]; (void)s2;
  const int gs = *(int*)A[11]; (void)gs;
  const int gu = *(int*)A[12]; (void)gu;
  const int gv = *(int*)A[13]; (void)gv;
  const int gc = *(int*)A[14]; (void)gc;
  const int gr = *(int*)A[15]; (void)gr;
  const int xl0 = *(int*)A[16]; (void)xl0;
  const int xh0 = *(int*)A[17]; (void)xh0;
  const int xl1 = *(int*)A[18]; (void)xl1;
  const int xh1 = *(int*)A[19]; (void)xh1;
  const int xl2 = *(int*)A[20]; (void)xl2;
  const int xh2 = *(int*)A[21]; (void)xh2;
  const int yl0 = *(int*)A[22]; (void)yl0;
  const int yh0 = *(int*)A[23]; (void)yh0;
  const int yl1 = *(int*)A[24]; (void)yl1;
  const int yh1 = *(int*)A[25]; (void)yh1;
  const int yl2 = *(int*)A[26]; (void)yl2;
  const int yh2 = *(int*)A[27]; (void)yh2;
  const int n1 = *(int*)A[28]; (void)n1;
  const int n2 = *(int*)A[29]; (void)n2;
  const T a = *(T*)A[30]; (void)a;
  const T b = *(T*)A[31]; (void)b;
  const T h0 = *(T*)A[32]; (void)h0;
  const T h1 = *(T*)A[33]; (void)h1;
  const T h2 = *(T*)A[34]; (void)h2;
  int* offs_ = (int*)A[35]; (void)offs_;
  T* st_ = (T*)A[36]; (void)st_;
  const T* ti_ = (const T*)A[37]; (void)ti_;
  const T* u_ = (const T*)A[38]; (void)u_;
  const T* v_ = (const T*)A[39]; (void)v_;
  const T* c_ = (const T*)A[40]; (void)c_;
  T* r_ = (T*)A[41]; (void)r_;
  T* q_ = (T*)A[42]; (void)q_;
  const auto i = Ib{lo0, hi0};
  const auto j = Jb{lo1, hi1};
  const auto wb = Wb{w0, w0 + w - 1}; auto o = thrust::device_ptr<int>(offs_); (void)o;
  auto st = make_md_span(st_, gs, Jb{lo1 - yl1, hi1 + yh1}, Ib{lo0 - yl0, hi0 + yh0}, wb); (void)st;
  auto ti = make_md_span(ti_, gs, Ib{lo0 - yl0, hi0 + yh0}, Jb{lo1 - yl1, hi1 + yh1}, wb); (void)ti;
  auto u = make_md_span(u_, gu, Ib{lo0 - xl0, hi0 + xh0}, Jb{lo1 - xl1, hi1 + xh1}); (void)u;
  auto v = make_md_span(v_, gv, j, i); (void)v;
  auto c = make_md_span(c_, gc, i + 1, j); (void)c;
  auto r = make_md_span(r_, gr, Jb{lo1 - yl1, hi1 + yh1}, Ib{lo0 - yl0, hi0 + yh0}); (void)r;
  auto q = make_md_span(q_, gr, Jb{lo1 - xl1, hi1 + xh1}, Ib{lo0 - xl0, hi0 + xh0}); (void)q;
  with_domain(st.window(), j, i)(st(2, 0) = a, st(2) = 2, st(2, 1) = b);
  }
template <class T> static void e10_33(void** A) {
  const int lo0 = *(int*)A[0]; (void)lo0;
  const int hi0 = *(int*)A[1]; (void)hi0;
  const int lo1 = *(int*)A[2]; (void)lo1;
  const int hi1 = *(int*)A[3]; (void)hi1;
  const int lo2 = *(int*)A[4]; (void)lo2;
  const int hi2 = *(int*)A[5]; (void)hi2;
  const int w = *(int*)A[6]; (void)w;
  const int w0 = *(int*)A[7]; (void)w0;
  const int s0 = *(int*)A[8]; (void)s0;
  const int s1 = *(int*)A[9]; (void)s1;
  const int s2 = *(int*)A[10]; (void)s2;
  const int gs = *(int*)A[11]; (void)gs;
  const int gu = *(int*)A[12]; (void)gu;
  const int gv = *(int*)A[13]; (void)gv;
  const int gc = *(int*)A[14]; (void)gc;
  const int gr = *(int*)A[15]; (void)gr;
  const int xl0 = *(int*)A[16]; (void)xl0;
  const int xh0 = *(int*)A[17]; (void)xh0;
  const int xl1 = *(int*)A[18]; (void)xl1;
  const int xh1 = *(int*)A[19]; (void)xh1;
  const int xl2 = *(int*)A[20]; (void)xl2;
  const int xh2 = *(int*)A[21]; (void)xh2;
  const int yl0 = *(int*)A[22]; (void)yl0;
  const int yh0 = *(int*)A[23]; (void)yh0;
  const int yl1 = *(int*)A[24]; (void)yl1;
  const int yh1 = *(int*)A[25]; (void)yh1;
  const int yl2 = *(int*)A[26]; (void)yl2;
  const int yh2 = *(int*)A[27]; (void)yh2;
  const int n1 = *(int*)A[28]; (void)n1;
  const int n2 = *(int*)A[29]; (void)n2;
  const T a = *(T*)A[30]; (void)a;
  const T b = *(T*)A[31]; (void)b;
  const T h0 = *(T*)A[32]; (void)h0;
  const T h1 = *(T*)A[33]; (void)h1;
  const T h2 = *(T*)A[34]; (void)h2;
  int* offs_ = (int*)A[35]; (void)offs_;
  T* st_ = (T*)A[36]; (void)st_;
  const T* ti_ = (const T*)A[37]; (void)ti_;
  const T* u_ = (const T*)A[38]; (void)u_;
  const T* v_ = (const T*)A[39]; (void)v_;
  const T* c_ = (const T*)A[40]; (void)c_;
  T* r_ = (T*)A[41]; (void)r_;
  T* q_ = (T*)A[42]; (void)q_;
  const auto i = Ib{lo0, hi0};
  const auto j = Jb{lo1, hi1};
  const auto k = Kb{lo2, hi2};
  const auto wb = Wb{w0, w0 + w - 1}; auto o = thrust::device_ptr<int>(offs_); (void)o;
  auto st = make_md_span(st_, gs, Jb{lo1 - yl1, hi1 + yh1}, Ib{lo0 - yl0, hi0 + yh0}, Kb{lo2 - yl2, hi2 + yh2}, wb); (void)st;
  auto ti = make_md_span(ti_, gs, Ib{lo0 - yl0, hi0 + yh0}, Jb{lo1 - yl1, hi1 + yh1}, Kb{lo2 - yl2, hi2 + yh2}, wb); (void)ti;
  auto u = make_md_span(u_, gu, Ib{lo0 - xl0, hi0 + xh0}, Kb{lo2 - xl2, hi2 + xh2}, Jb{lo1 - xl1, hi1 + xh1}); (void)u;
  auto v = make_md_span(v_, gv, k, i, j); (void)v;
  auto c = make_md_span(c_, gc, k, j, i); (void)c;
  auto r = make_md_span(r_, gr, Kb{lo2 - yl2, hi2 + yh2}, Jb{lo1 - yl1, hi1 + yh1}, Ib{lo0 - yl0, hi0 + yh0}); (void)r;
  auto q = make_md_span(q_, gr, Kb{lo2 - xl2, hi2 + xh2}, Ib{lo0 - xl0, hi0 + xh0}, Jb{lo1 - xl1, hi1 + xh1}); (void)q;
  with_domain(st.window(), j, i, k)(st(4, 1) = T(0.5) * u.stencil_z());
  }
template <class T> static void e10_s02(void** A) {
  const int lo0 = *(int*)A[0]; (void)lo0;
  const int hi0 = *(int*)A[1]; (void)hi0;
  const int lo1 = *(int*)A[2]; (void)lo1;
  const int hi1 = *(int*)A[3]; (void)hi1;
  const int lo2 = *(int*)A[4]; (void)lo2;
  const int hi2 = *(int*)A[5]; (void)hi2;
  const int w = *(int*)A[6]; (void)w;
  const int w0 = *(int*)A[7]; (void)w0;
  const int s0 = *(int*)A[8]; (void)s0;
  const int s1 = *(int*)A[9]; (void)s1;
  const int s2 = *(int*)A[10]; (void)s2;
  const int gs = *(int*)A[11]; (void)gs;
  const int gu = *(int*)A[12]; (void)gu;
  const int gv = *(int*)A[13]; (void)gv;
  const int gc = *(int*)A[14]; (void)gc;
  const int gr = *(int*)A[15]; (void)gr;
  const int xl0 = *(int*)A[16]; (void)xl0;
  const int xh0 = *(int*)A[17]; (void)xh0;
  const int xl1 = *(int*)A[18]; (void)xl1;
  const int xh1 = *(int*)A[19]; (void)xh1;
  const int xl2 = *(int*)A[20]; (void)xl2;
  const int xh2 = *(int*)A[21]; (void)xh2;
  const int yl0 = *(int*)A[22]; (void)yl0;
  const int yh0 = *(int*)A[23]; (void)yh0;
  const int yl1 = *(int*)A[24]; (void)yl1;
  const int yh1 = *(int*)A[25]; (void)yh1;
  const int yl2 = *(int*)A[26]; (void)yl2;
  const int yh2 = *(int*)A[27]; (void)yh2;
  const int n1 = *(int*)A[28]; (void)n1;
  const int n2 = *(int*)A[29]; (void)n2;
  const T a = *(T*)A[30]; (void)a;
  const T b = *(T*)A[31]; (void)b;
  const T h0 = *(T*)A[32]; (void)h0;
  const T h1 = *(T*)A[33]; (void)h1;
  const T h2 = *(T*)A[34]; (void)h2;
  int* offs_ = (int*)A[35]; (void)offs_;
  T* st_ = (T*)A[36]; (void)st_;
  const T* ti_ = (const T*)A[37]; (void)ti_;
  const T* u_ = (const T*)A[38]; (void)u_;
  const T* v_ = (const T*)A[39]; (void)v_;
  const T* c_ = (const T*)A[40]; (void)c_;
  T* r_ = (T*)A[41]; (void)r_;
  T* q_ = (T*)A[42]; (void)q_;
  const auto i = Ib{lo0, hi0};
  const auto j = Jb{lo1, hi1};
  const auto wb = Wb{w0, w0 + w - 1}; auto o = thrust::device_ptr<int>(offs_); (void)o;
  auto st = make_md_span(st_, gs, Ib{lo0 - yl0, hi0 + yh0}, Jb{lo1 - yl1, hi1 + yh1}, wb); (void)st;
  auto ti = make_md_span(ti_, gs, Ib{lo0 - yl0, hi0 + yh0}, Jb{lo1 - yl1, hi1 + yh1}, wb); (void)ti;
  auto u = make_md_span(u_, gu, Jb{lo1 - xl1, hi1 + xh1}, Ib{lo0 - xl0, hi0 + xh0}); (void)u;
  auto v = make_md_span(v_, gv, j, i); (void)v;
  auto c = make_md_span(c_, gc, i, j); (void)c;
  auto r = make_md_span(r_, gr, Ib{lo0 - yl0, hi0 + yh0}, Jb{lo1 - yl1, hi1 + yh1}); (void)r;
  auto q = make_md_span(q_, gr, Jb{lo1 - xl1, hi1 + xh1}, Ib{lo0 - xl0, hi0 + xh0}); (void)q;
  with_domain(st.window(), j, i)(st(1, 0) = -1 * u.stencil_x(up), st(3, 2) = 3 * v.stencil_y(down));
  }
template <class T> static void e10_s10(void** A) {
  const int lo0 = *(int*)A[0]; (void)lo0;
  const int hi0 = *(int*)A[1]; (void)hi0;
  const int lo1 = *(int*)A[2]; (void)lo1;
  const int hi1 = *(int*)A[3]; (void)hi1;
  const int lo2 = *(int*)A[4]; (void)lo2;
  const int hi2 = *(int*)A[5]; (void)hi2;
  const int w = *(int*)A[6]; (void)w;
  const int w0 = *(int*)A[7]; (void)w0;
  const int s0 = *(int*)A[8]; (void)s0;
  const int s1 = *(int*)A[9]; (void)s1;
  const int s2 = *(int*)A[10]; (void)s2;
  const int gs = *(int*)A[11]; (void)gs;
  const int gu = *(int*)A[12]; (void)gu;
  const int gv = *(int*)A[13]; (void)gv;
  const int gc = *(int*)A[14]; (void)gc;
  const int gr = *(int*)A[15]; (void)gr;
  const int xl0 = *(int*)A[16]; (void)xl0;
  const int xh0 = *(int*)A[17]; (void)xh0;
  const int xl1 = *(int*)A[18]; (void)xl1;
  const int xh1 = *(int*)A[19]; (void)xh1;
  const int xl2 = *(int*)A[20]; (void)xl2;
  const int xh2 = *(int*)A[21]; (void)xh2;
  const int yl0 = *(int*)A[22]; (void)yl0;
  const int yh0 = *(int*)A[23]; (void)yh0;
  const int yl1 = *(int*)A[24]; (void)yl1;
  const int yh1 = *(int*)A[25]; (void)yh1;
  const int yl2 = *(int*)A[26]; (void)yl2;
  const int yh2 = *(int*)A[27]; (void)yh2;
  const int n1 = *(int*)A[28]; (void)n1;
  const int n2 = *(int*)A[29]; (void)n2;
  const T a = *(T*)A[30]; (void)a;
  const T b = *(T*)A[31]; (void)b;
  const T h0 = *(T*)A[32]; (void)h0;
  const T h1 = *(T*)A[33]; (void)h1;
  const T h2 = *(T*)A[34]; (void)h2;
  int* offs_ = (int*)A[35]; (void)offs_;
  T* st_ = (T*)A[36]; (void)st_;
  const T* ti_ = (const T*)A[37]; (void)ti_;
  const T* u_ = (const T*)A[38]; (void)u_;
  const T* v_ = (const T*)A[39]; (void)v_;
  const T* c_ = (const T*)A[40]; (void)c_;
  T* r_ = (T*)A[41]; (void)r_;
  T* q_ = (T*)A[42]; (void)q_;
  const auto i = Ib{lo0, hi0};
  const auto j = Jb{lo1, hi1};
  const auto k = Kb{lo2, hi2};
  const auto wb = Wb{w0, w0 + w - 1}; auto o = thrust::device_ptr<int>(offs_); (void)o;
  auto st = make_md_span(st_, gs, Kb{lo2 - yl2, hi2 + yh2}, Ib{lo0 - yl0, hi0 + yh0}, Jb{lo1 - yl1, hi1 + yh1}, wb); (void)st;
  auto ti = make_md_span(ti_, gs, Kb{lo2 - yl2, hi2 + yh2}, Jb{lo1 - yl1, hi1 + yh1}, Ib{lo0 - yl0, hi0 + yh0}, wb); (void)ti;
  auto u = make_md_span(u_, gu, Ib{lo0 - xl0, hi0 + xh0}, Kb{lo2 - xl2, hi2 + xh2}, Jb{lo1 - xl1, hi1 + xh1}); (void)u;
  auto v = make_md_span(v_, gv, i, k, j); (void)v;
  auto c = make_md_span(c_, gc, j, k, i); (void)c;
  auto r = make_md_span(r_, gr, Jb{lo1 - yl1, hi1 + yh1}, Kb{lo2 - yl2, hi2 + yh2}, Ib{lo0 - yl0, hi0 + yh0}); (void)r;
  auto q = make_md_span(q_, gr, Jb{lo1 - xl1, hi1 + xh1}, Kb{lo2 - xl2, hi2 + xh2 + 1}, Ib{lo0 - xl0, hi0 + xh0}); (void)q;
  with_domain(st.window(), j, i, k)(st(4, 5) = 2 * c.stencil_z(up), st(2, 3) = a * v.stencil_z(down), st(1, 0) = a * u.stencil_x(up));
  }
template <class T> static void e10_s18(void** A) {
  const int lo0 = *(int*)A[0]; (void)lo0;
  const int hi0 = *(int*)A[1]; (void)hi0;
  const int lo1 = *(int*)A[2]; (void)lo1;
  const int hi1 = *(int*)A[3]; (void)hi1;
  const int lo2 = *(int*)A[4]; (void)lo2;
  const int hi2 = *(int*)A[5]; (void)hi2;
  const int w = *(int*)A[6]; (void)w;
  const int w0 = *(int*)A[7]; (void)w0;
  const int s0 = *(int*)A[8]; (void)s0;
  const int s1 = *(int*)A[9]; (void)s1;
  const int s2 = *(int*)A[10]; (void)s2;
  const int gs = *(int*)A[11]; (void)gs;
  const int gu = *(int*)A[12]; (void)gu;
  const int gv = *(int*)A[13]; (void)gv;
  const int gc = *(int*)A[14]; (void)gc;
  const int gr = *(int*)A[15]; (void)gr;
  const int xl0 = *(int*)A[16]; (void)xl0;
  const int xh0 = *(int*)A[17]; (void)xh0;
  const int xl1 = *(int*)A[18]; (void)xl1;
  const int xh1 = *(int*)A[19]; (void)xh1;
  const int xl2 = *(int*)A[20]; (void)xl2;
  const int xh2 = *(int*)A[21]; (void)xh2;
  const int yl0 = *(int*)A[22]; (void)yl0;
  const int yh0 = *(int*)A[23]; (void)yh0;
  const int yl1 = *(int*)A[24]; (void)yl1;
  const int yh1 = *(int*)A[25]; (void)yh1;
  const int yl2 = *(int*)A[26]; (void)yl2;
  const int yh2 = *(int*)A[27]; (void)yh2;
  const int n1 = *(int*)A[28]; (void)n1;
  const int n2 = *(int*)A[29]; (void)n2;
  const T a = *(T*)A[30]; (void)a;
  const T b = *(T*)A[31]; (void)b;
  const T h0 = *(T*)A[32]; (void)h0;
  const T h1 = *(T*)A[33]; (void)h1;
  const T h2 = *(T*)A[34]; (void)h2;
  int* offs_ = (int*)A[35]; (void)offs_;
  T* st_ = (T*)A[36]; (void)st_;
  const T* ti_ = (const T*)A[37]; (void)ti_;
  const T* u_ = (const T*)A[38]; (void)u_;
  const T* v_ = (const T*)A[39]; (void)v_;
  const T* c_ = (const T*)A[40]; (void)c_;
  T* r_ = (T*)A[41]; (void)r_;
  T* q_ = (T*)A[42]; (void)q_;
  const auto j = Jb{lo1, hi1};
  const auto k = Kb{lo2, hi2};
  const auto wb = Wb{w0, w0 + w - 1}; auto o = thrust::device_ptr<int>(offs_); (void)o;
  auto st = make_md_span(st_, gs, Kb{lo2 - yl2, hi2 + yh2}, Jb{lo1 - yl1, hi1 + yh1}, wb); (void)st;
  auto ti = make_md_span(ti_, gs, Kb{lo2 - yl2, hi2 + yh2}, Jb{lo1 - yl1, hi1 + yh1}, wb); (void)ti;
  auto u = make_md_span(u_, gu, Kb{lo2 - xl2, hi2 + xh2}, Jb{lo1 - xl1, hi1 + xh1}); (void)u;
  auto v = make_md_span(v_, gv, k, j); (void)v;
  auto c = make_md_span(c_, gc, j, k); (void)c;
  auto r = make_md_span(r_, gr, Jb{lo1 - yl1, hi1 + yh1}, Kb{lo2 - yl2, hi2 + yh2}); (void)r;
  auto q = make_md_span(q_, gr, Jb{lo1 - xl1, hi1 + xh1}, Kb{lo2 - xl2, hi2 + xh2 + 1}); (void)q;
  with_domain(st.window(), j, k)(st(4, 5) = 3 * c.stencil_z(), st(1, 0) = 3 * u.stencil_y(down), st(3, 2) = a * v.stencil_z(down));
  }
struct Reg { Reg() {
  sim_register_harness("e10_01", 0, 0, e10_01<double>); sim_register_harness("e10_01", 1, 0, e10_01<float>);
  sim_register_harness("e10_09", 0, 0, e10_09<double>); sim_register_harness("e10_09", 1, 0, e10_09<float>);
  sim_register_harness("e10_17", 0, 0, e10_17<double>); sim_register_harness("e10_17", 1, 0, e10_17<float>);
  sim_register_harness("e10_25", 0, 0, e10_25<double>); sim_register_harness("e10_25", 1, 0, e10_25<float>);
  sim_register_harness("e10_33", 0, 0, e10_33<double>); sim_register_harness("e10_33", 1, 0, e10_33<float>);
  sim_register_harness("e10_s02", 0, 0, e10_s02<double>); sim_register_harness("e10_s02", 1, 0, e10_s02<float>);
  sim_register_harness("e10_s10", 0, 0, e10_s10<double>); sim_register_harness("e10_s10", 1, 0, e10_s10<float>);
  sim_register_harness("e10_s18", 0, 0, e10_s18<double>); sim_register_harness("e10_s18", 1, 0, e10_s18<float>);
} } reg;
}
