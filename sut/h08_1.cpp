// generated by tools/gen_h.py
#include "md_device_span.hpp"
extern "C" void sim_register_harness(const char*, int, int, void (*)(void**));
namespace {
template <class T> static void e08_01(void** A) {
  const int lo0 = *(int*)A[0]; (void)lo0;
  const int hi0 = *(int*)A[1]; (void)hi0;
  const int lo1 = *(int*)A[2]; (void)lo1;
  const int hi1 = *(int*)A[3]; (void)hi1;
  const int lo2 = *(int*)A[4]; (void)lo2;
  const int hi2 = *(int*)A[5]; (void)hi2;
  const int s0 = *(int*)A[6]; (void)s0;
  const int s1 = *(int*)A[7]; (void)s1;
  const int s2 = *(int*)A[8]; (void)s2;
  const int gu = *(int*)A[9]; (void)gu;
  const int gv = *(int*)A[10]; (void)gv;
  const int gc = *(int*)A[11]; (void)gc;
  const int gr = *(int*)A[12]; (void)gr;
  const int xl0 = *(int*)A[13]; (void)xl0;
  const int xh0 = *(int*)A[14]; (void)xh0;
  const int xl1 = *(int*)A[15]; (void)xl1;
  const int xh1 = *(int*)A[16]; (void)xh1;
  const int xl2 = *(int*)A[17]; (void)xl2;
  const int xh2 = *(int*)A[18]; (void)xh2;
  const int yl0 = *(int*)A[19]; (void)yl0;
  const int yh0 = *(int*)A[20]; (void)yh0;
  const int yl1 = *(int*)A[21]; (void)yl1;
  const int yh1 = *(int*)A[22]; (void)yh1;
  const int yl2 = *(int*)A[23]; (void)yl2;
  const int yh2 = *(int*)A[24]; (void)yh2;
  const int n1 = *(int*)A[25]; (void)n1;
  const int n2 = *(int*)A[26]; (void)n2;
  const T a = *(T*)A[27]; (void)a;
  const T b = *(T*)A[28]; (void)b;
  const T h0 = *(T*)A[29]; (void)h0;
  const T h1 = *(T*)A[30]; (void)h1;
  const T h2 = *(T*)A[31]; (void)h2;
  const T* u_ = (const T*)A[32]; (void)u_;
  const T* v_ = (const T*)A[33]; (void)v_;
  const T* c_ = (const T*)A[34]; (void)c_;
  T* r_ = (T*)A[35]; (void)r_;
  T* q_ = (T*)A[36]; (void)q_;
  const auto i = Ib{lo0, hi0};
  auto u = make_md_span(u_, gu, Ib{lo0 - xl0, hi0 + xh0}); (void)u;
  auto v = make_md_span(v_, gv, i); (void)v;
  auto c = make_md_span(c_, gc, i); (void)c;
  auto r = make_md_span(r_, gr, Ib{lo0 - yl0, hi0 + yh0 + 1}); (void)r;
  auto q = make_md_span(q_, gr, Ib{lo0 - xl0, hi0 + xh0}); (void)q;
  with_domain(i)(r = (1.5 + (v.shift_x(n2) * v.grad_x(h0, down))));
  }
template <class T> static void e08_09(void** A) {
  const int lo0 = *(int*)A[0]; (void)lo0;
  const int hi0 = *(int*)A[1]; (void)hi0;
  const int lo1 = *(int*)A[2]; (void)lo1;
  const int hi1 = *(int*)A[3]; (void)hi1;
  const int lo2 = *(int*)A[4]; (void)lo2;
  const int hi2 = *(int*)A[5]; (void)hi2;
  const int s0 = *(int*)A[6]; (void)s0;
  const int s1 = *(int*)A[7]; (void)s1;
  const int s2 = *(int*)A[8]; (void)s2;
  const int gu = *(int*)A[9]; (void)gu;
  const int gv = *(int*)A[10]; (void)gv;
  const int gc = *(int*)A[11]; (void)gc;
  const int gr = *(int*)A[12]; (void)gr;
  const int xl0 = *(int*)A[13]; (void)xl0;
  const int xh0 = *(int*)A[14]; (void)xh0;
  const int xl1 = *(int*)A[15]; (void)xl1;
  const int xh1 = *(int*)A[16]; (void)xh1;
  const int xl2 = *(int*)A[17]; (void)xl2;
  const int xh2 = *(int*)A[18]; (void)xh2;
  const int yl0 = *(int*)A[19]; (void)yl0;
  const int yh0 = *(int*)A[20]; (void)yh0;
  const int yl1 = *(int*)A[21]; (void)yl1;
  const int yh1 = *(int*)A[22]; (void)yh1;
  const int yl2 = *(int*)A[23]; (void)yl2;
  const int yh2 = *(int*)A[24]; (void)yh2;
  const int n1 = *(int*)A[25]; (void)n1;
  const int n2 = *(int*)A[26]; (void)n2;
  const T a = *(T*)A[27]; (void)a;
  const T b = *(T*)A[28]; (void)b;
  const T h0 = *(T*)A[29]; (void)h0;
  const T h1 = *(T*)A[30]; (void)h1;
  const T h2 = *(T*)A[31]; (void)h2;
  const T* u_ = (const T*)A[32]; (void)u_;
  const T* v_ = (const T*)A[33]; (void)v_;
  const T* c_ = (const T*)A[34]; (void)c_;
  T* r_ = (T*)A[35]; (void)r_;
  T* q_ = (T*)A[36]; (void)q_;
  const auto i = Ib{lo0, hi0};
  auto u = make_md_span(u_, gu, Ib{lo0 - xl0, hi0 + xh0}); (void)u;
  auto v = make_md_span(v_, gv, i); (void)v;
  auto c = make_md_span(c_, gc, i); (void)c;
  auto r = make_md_span(r_, gr, Ib{lo0 - yl0, hi0 + yh0}); (void)r;
  auto q = make_md_span(q_, gr, Ib{lo0 - xl0, hi0 + xh0 + 1}); (void)q;
  with_domain(i)(r = (2 / (c + 2)), q = (u + u));
  }
template <class T> static void e08_17(void** A) {
  const int lo0 = *(int*)A[0]; (void)lo0;
  const int hi0 = *(int*)A[1]; (void)hi0;
  const int lo1 = *(int*)A[2]; (void)lo1;
  const int hi1 = *(int*)A[3]; (void)hi1;
  const int lo2 = *(int*)A[4]; (void)lo2;
  const int hi2 = *(int*)A[5]; (void)hi2;
  const int s0 = *(int*)A[6]; (void)s0;
  const int s1 = *(int*)A[7]; (void)s1;
  const int s2 = *(int*)A[8]; (void)s2;
  const int gu = *(int*)A[9]; (void)gu;
  const int gv = *(int*)A[10]; (void)gv;
  const int gc = *(int*)A[11]; (void)gc;
  const int gr = *(int*)A[12]; (void)gr;
  const int xl0 = *(int*)A[13]; (void)xl0;
  const int xh0 = *(int*)A[14]; (void)xh0;
  const int xl1 = *(int*)A[15]; (void)xl1;
  const int xh1 = *(int*)A[16]; (void)xh1;
  const int xl2 = *(int*)A[17]; (void)xl2;
  const int xh2 = *(int*)A[18]; (void)xh2;
  const int yl0 = *(int*)A[19]; (void)yl0;
  const int yh0 = *(int*)A[20]; (void)yh0;
  const int yl1 = *(int*)A[21]; (void)yl1;
  const int yh1 = *(int*)A[22]; (void)yh1;
  const int yl2 = *(int*)A[23]; (void)yl2;
  const int yh2 = *(int*)A[24]; (void)yh2;
  const int n1 = *(int*)A[25]; (void)n1;
  const int n2 = *(int*)A[26]; (void)n2;
  const T a = *(T*)A[27]; (void)a;
  const T b = *(T*)A[28]; (void)b;
  const T h0 = *(T*)A[29]; (void)h0;
  const T h1 = *(T*)A[30]; (void)h1;
  const T h2 = *(T*)A[31]; (void)h2;
  const T* u_ = (const T*)A[32]; (void)u_;
  const T* v_ = (const T*)A[33]; (void)v_;
  const T* c_ = (const T*)A[34]; (void)c_;
  T* r_ = (T*)A[35]; (void)r_;
  T* q_ = (T*)A[36]; (void)q_;
  const auto i = Ib{lo0, hi0};
  const auto j = Jb{lo1, hi1};
  auto u = make_md_span(u_, gu, Jb{lo1 - xl1, hi1 + xh1}, Ib{lo0 - xl0, hi0 + xh0}); (void)u;
  auto v = make_md_span(v_, gv, j, i); (void)v;
  auto c = make_md_span(c_, gc, j, i); (void)c;
  auto r = make_md_span(r_, gr, Ib{lo0 - yl0, hi0 + yh0}, Jb{lo1 - yl1, hi1 + yh1}); (void)r;
  auto q = make_md_span(q_, gr, Jb{lo1 - xl1, hi1 + xh1}, Ib{lo0 - xl0, hi0 + xh0}); (void)q;
  with_domain(j, i)(r = ((v * 2) + (c.grad_y(h1, down) * v.grad_y(h1, down))));
  }
template <class T> static void e08_25(void** A) {
  const int lo0 = *(int*)A[0]; (void)lo0;
  const int hi0 = *(int*)A[1]; (void)hi0;
  const int lo1 = *(int*)A[2]; (void)lo1;
  const int hi1 = *(int*)A[3]; (void)hi1;
  const int lo2 = *(int*)A[4]; (void)lo2;
  const int hi2 = *(int*)A[5]; (void)hi2;
  const int s0 = *(int*)A[6]; (void)s0;
  const int s1 = *(int*)A[7]; (void)s1;
  const int s2 = *(int*)A[8]; (void)s2;
  const int gu = *(int*)A[9]; (void)gu;
  const int gv = *(int*)A[10]; (void)gv;
  const int gc = *(int*)A[11]; (void)gc;
  const int gr = *(int*)A[12]; (void)gr;
  const int xl0 = *(int*)A[13]; (void)xl0;
  const int xh0 = *(int*)A[14]; (void)xh0;
  const int xl1 = *(int*)A[15]; (void)xl1;
  const int xh1 = *(int*)A[16]; (void)xh1;
  const int xl2 = *(int*)A[17]; (void)xl2;
  const int xh2 = *(int*)A[18]; (void)xh2;
  const int yl0 = *(int*)A[19]; (void)yl0;
  const int yh0 = *(int*)A[20]; (void)yh0;
  const int yl1 = *(int*)A[21]; (void)yl1;
  const int yh1 = *(int*)A[22]; (void)yh1;
  const int yl2 = *(int*)A[23]; (void)yl2;
  const int yh2 = *(int*)A[24]; (void)yh2;
  const int n1 = *(int*)A[25]; (void)n1;
  const int n2 = *(int*)A[26]; (void)n2;
  const T a = *(T*)A[27]; (void)a;
  const T b = *(T*)A[28]; (void)b;
  const T h0 = *(T*)A[29]; (void)h0;
  const T h1 = *(T*)A[30]; (void)h1;
  const T h2 = *(T*)A[31]; (void)h2;
  const T* u_ = (const T*)A[32]; (void)u_;
  const T* v_ = (const T*)A[33]; (void)v_;
  const T* c_ = (const T*)A[34]; (void)c_;
  T* r_ = (T*)A[35]; (void)r_;
  T* q_ = (T*)A[36]; (void)q_;
  const auto i = Ib{lo0, hi0};
  const auto j = Jb{lo1, hi1};
  auto u = make_md_span(u_, gu, Jb{lo1 - xl1, hi1 + xh1}, Ib{lo0 - xl0, hi0 + xh0}); (void)u;
  auto v = make_md_span(v_, gv, j, i); (void)v;
  auto c = make_md_span(c_, gc, i, j); (void)c;
  auto r = make_md_span(r_, gr, Jb{lo1 - yl1, hi1 + yh1}, Ib{lo0 - yl0, hi0 + yh0 + 1}); (void)r;
  auto q = make_md_span(q_, gr, Jb{lo1 - xl1, hi1 + xh1}, Ib{lo0 - xl0, hi0 + xh0}); (void)q;
  with_domain(i, j)(r = (r * T(0.5) + (a * u.shift_x(2))));
  }
template <class T> static void e08_33(void** A) {
  const int lo0 = *(int*)A[0]; (void)lo0;
  const int hi0 = *(int*)A[1]; (void)hi0;
  const int lo1 = *(int*)A[2]; (void)lo1;
  const int hi1 = *(int*)A[3]; (void)hi1;
  const int lo2 = *(int*)A[4]; (void)lo2;
  const int hi2 = *(int*)A[5]; (void)hi2;
  const int s0 = *(int*)A[6]; (void)s0;
  const int s1 = *(int*)A[7]; (void)s1;
  const int s2 = *(int*)A[8]; (void)s2;
  const int gu = *(int*)A[9]; (void)gu;
  const int gv = *(int*)A[10]; (void)gv;
  const int gc = *(int*)A[11]; (void)gc;
  const int gr = *(int*)A[12]; (void)gr;
  const int xl0 = *(int*)A[13]; (void)xl0;
  const int xh0 = *(int*)A[14]; (void)xh0;
  const int xl1 = *(int*)A[15]; (void)xl1;
  const int xh1 = *(int*)A[16]; (void)xh1;
  const int xl2 = *(int*)A[17]; (void)xl2;
  const int xh2 = *(int*)A[18]; (void)xh2;
  const int yl0 = *(int*)A[19]; (void)yl0;
  const int yh0 = *(int*)A[20]; (void)yh0;
  const int yl1 = *(int*)A[21]; (void)yl1;
  const int yh1 = *(int*)A[22]; (void)yh1;
  const int yl2 = *(int*)A[23]; (void)yl2;
  const int yh2 = *(int*)A[24]; (void)yh2;
  const int n1 = *(int*)A[25]; (void)n1;
  const int n2 = *(int*)A[26]; (void)n2;
  const T a = *(T*)A[27]; (void)a;
  const T b = *(T*)A[28]; (void)b;
  const T h0 = *(T*)A[29]; (void)h0;
  const T h1 = *(T*)A[30]; (void)h1;
  const T h2 = *(T*)A[31]; (void)h2;
  const T* u_ = (const T*)A[32]; (void)u_;
  const T* v_ = (const T*)A[33]; (void)v_;
  const T* c_ = (const T*)A[34]; (void)c_;
  T* r_ = (T*)A[35]; (void)r_;
  T* q_ = (T*)A[36]; (void)q_;
  const auto i = Ib{lo0, hi0};
  const auto j = Jb{lo1, hi1};
  const auto k = Kb{lo2, hi2};
  auto u = make_md_span(u_, gu, Jb{lo1 - xl1, hi1 + xh1}, Kb{lo2 - xl2, hi2 + xh2}, Ib{lo0 - xl0, hi0 + xh0}); (void)u;
  auto v = make_md_span(v_, gv, k, j, i); (void)v;
  auto c = make_md_span(c_, gc, j, k, i); (void)c;
  auto r = make_md_span(r_, gr, Kb{lo2 - yl2, hi2 + yh2}, Jb{lo1 - yl1, hi1 + yh1}, Ib{lo0 - yl0, hi0 + yh0}); (void)r;
  auto q = make_md_span(q_, gr, Kb{lo2 - xl2, hi2 + xh2}, Jb{lo1 - xl1, hi1 + xh1}, Ib{lo0 - xl0, hi0 + xh0}); (void)q;
  with_domain(j, k, i)(r = (a + v.shift_xz(n1, 1)));
  }
template <class T> static void e08_41(void** A) {
  const int lo0 = *(int*)A[0]; (void)lo0;
  const int hi0 = *(int*)A[1]; (void)hi0;
  const int lo1 = *(int*)A[2]; (void)lo1;
  const int hi1 = *(int*)A[3]; (void)hi1;
  const int lo2 = *(int*)A[4]; (void)lo2;
  const int hi2 = *(int*)A[5]; (void)hi2;
  const int s0 = *(int*)A[6]; (void)s0;
  const int s1 = *(int*)A[7]; (void)s1;
  const int s2 = *(int*)A[8]; (void)s2;
  const int gu = *(int*)A[9]; (void)gu;
  const int gv = *(int*)A[10]; (void)gv;
  const int gc = *(int*)A[11]; (void)gc;
  const int gr = *(int*)A[12]; (void)gr;
  const int xl0 = *(int*)A[13]; (void)xl0;
  const int xh0 = *(int*)A[14]; (void)xh0;
  const int xl1 = *(int*)A[15]; (void)xl1;
  const int xh1 = *(int*)A[16]; (void)xh1;
  const int xl2 = *(int*)A[17]; (void)xl2;
  const int xh2 = *(int*)A[18]; (void)xh2;
  const int yl0 = *(int*)A[19]; (void)yl0;
  const int yh0 = *(int*)A[20]; (void)yh0;
  const int yl1 = *(int*)A[21]; (void)yl1;
  const int yh1 = *(int*)A[22]; (void)yh1;
  const int yl2 = *(int*)A[23]; (void)yl2;
  const int yh2 = *(int*)A[24]; (void)yh2;
  const int n1 = *(int*)A[25]; (void)n1;
  const int n2 = *(int*)A[26]; (void)n2;
  const T a = *(T*)A[27]; (void)a;
  const T b = *(T*)A[28]; (void)b;
  const T h0 = *(T*)A[29]; (void)h0;
  const T h1 = *(T*)A[30]; (void)h1;
  const T h2 = *(T*)A[31]; (void)h2;
  const T* u_ = (const T*)A[32]; (void)u_;
  const T* v_ = (const T*)A[33]; (void)v_;
  const T* c_ = (const T*)A[34]; (void)c_;
  T* r_ = (T*)A[35]; (void)r_;
  T* q_ = (T*)A[36]; (void)q_;
  const auto i = Ib{lo0, hi0};
  const auto j = Jb{lo1, hi1};
  const auto k = Kb{lo2, hi2};
  auto u = make_md_span(u_, gu, Ib{lo0 - xl0, hi0 + xh0}, Kb{lo2 - xl2, hi2 + xh2}, Jb{lo1 - xl1, hi1 + xh1}); (void)u;
  auto v = make_md_span(v_, gv, i, j, k); (void)v;
  auto c = make_md_span(c_, gc, i, j, k + 1); (void)c;
  auto r = make_md_span(r_, gr, Kb{lo2 - yl2, hi2 + yh2 + 1}, Ib{lo0 - yl0, hi0 + yh0}, Jb{lo1 - yl1, hi1 + yh1}); (void)r;
  auto q = make_md_span(q_, gr, Jb{lo1 - xl1, hi1 + xh1}, Ib{lo0 - xl0, hi0 + xh0}, Kb{lo2 - xl2, hi2 + xh2}); (void)q;
  with_domain(Ib{lo0, hi0, s0}, Jb{lo1, hi1, s1}, Kb{lo2, hi2, s2})(r = b);
  }
template <class T> static void e08_49(void** A) {
  const int lo0 = *(int*)A[0]; (void)lo0;
  const int hi0 = *(int*)A[1]; (void)hi0;
  const int lo1 = *(int*)A[2]; (void)lo1;
  const int hi1 = *(int*)A[3]; (void)hi1;
  const int lo2 = *(int*)A[4]; (void)lo2;
  const int hi2 = *(int*)A[5]; (void)hi2;
  const int s0 = *(int*)A[6]; (void)s0;
  const int s1 = *(int*)A[7]; (void)s1;
  const int s2 = *(int*)A[8]; (void)s2;
  const int gu = *(int*)A[9]; (void)gu;
  const int gv = *(int*)A[10]; (void)gv;
  const int gc = *(int*)A[11]; (void)gc;
  const int gr = *(int*)A[12]; (void)gr;
  const int xl0 = *(int*)A[13]; (void)xl0;
  const int xh0 = *(int*)A[14]; (void)xh0;
  const int xl1 = *(int*)A[15]; (void)xl1;
  const int xh1 = *(int*)A[16]; (void)xh1;
  const int xl2 = *(int*)A[17]; (void)xl2;
  const int xh2 = *(int*)A[18]; (void)xh2;
  const int yl0 = *(int*)A[19]; (void)yl0;
  const int yh0 = *(int*)A[20]; (void)yh0;
  const int yl1 = *(int*)A[21]; (void)yl1;
  const int yh1 = *(int*)A[22]; (void)yh1;
  const int yl2 = *(int*)A[23]; (void)yl2;
  const int yh2 = *(int*)A[24]; (void)yh2;
  const int n1 = *(int*)A[25]; (void)n1;
  const int n2 = *(int*)A[26]; (void)n2;
  const T a = *(T*)A[27]; (void)a;
  const T b = *(T*)A[28]; (void)b;
  const T h0 = *(T*)A[29]; (void)h0;
  const T h1 = *(T*)A[30]; (void)h1;
  const T h2 = *(T*)A[31]; (void)h2;
  const T* u_ = (const T*)A[32]; (void)u_;
  const T* v_ = (const T*)A[33]; (void)v_;
  const T* c_ = (const T*)A[34]; (void)c_;
  T* r_ = (T*)A[35]; (void)r_;
  T* q_ = (T*)A[36]; (void)q_;
  const auto i = Ib{lo0, hi0};
  auto u = make_md_span(u_, gu, Ib{lo0 - xl0, hi0 + xh0}); (void)u;
  auto v = make_md_span(v_, gv, i); (void)v;
  auto c = make_md_span(c_, gc, i); (void)c;
  auto r = make_md_span(r_, gr, Ib{lo0 - yl0, hi0 + yh0}); (void)r;
  auto q = make_md_span(q_, gr, Ib{lo0 - xl0, hi0 + xh0}); (void)q;
  with_domain(Ib{lo0, hi0, s0})(r = u, q = -1 * r + u);
  }
template <class T> static void e08_57(void** A) {
  const int lo0 = *(int*)A[0]; (void)lo0;
  const int hi0 = *(int*)A[1]; (void)hi0;
  const int lo1 = *(int*)A[2]; (void)lo1;
  const int hi1 = *(int*)A[3]; (void)hi1;
  const int lo2 = *(int*)A[4]; (void)lo2;
  const int hi2 = *(int*)A[5]; (void)hi2;
  const int s0 = *(int*)A[6]; (void)s0;
  const int s1 = *(int*)A[7]; (void)s1;
  const int s2 = *(int*)A[8]; (void)s2;
  const int gu = *(int*)A[9]; (void)gu;
  const int gv = *(int*)A[10]; (void)gv;
  const int gc = *(int*)A[11]; (void)gc;
  const int gr = *(int*)A[12]; (void)gr;
  const int xl0 = *(int*)A[13]; (void)xl0;
  const int xh0 = *(int*)A[14]; (void)xh0;
  const int xl1 = *(int*)A[15]; (void)xl1;
  const int xh1 = *(int*)A[16]; (void)xh1;
  const int xl2 = *(int*)A[17]; (void)xl2;
  const int xh2 = *(int*)A[18]; (void)xh2;
  const int yl0 = *(int*)A[19]; (void)yl0;
  const int yh0 = *(int*)A[20]; (void)yh0;
  const int yl1 = *(int*)A[21]; (void)yl1;
  const int yh1 = *(int*)A[22]; (void)yh1;
  const int yl2 = *(int*)A[23]; (void)yl2;
  const int yh2 = *(int*)A[24]; (void)yh2;
  const int n1 = *(int*)A[25]; (void)n1;
  const int n2 = *(int*)A[26]; (void)n2;
  const T a = *(T*)A[27]; (void)a;
  const T b = *(T*)A[28]; (void)b;
  const T h0 = *(T*)A[29]; (void)h0;
  const T h1 = *(T*)A[30]; (void)h1;
  const T h2 = *(T*)A[31]; (void)h2;
  const T* u_ = (const T*)A[32]; (void)u_;
  const T* v_ = (const T*)A[33]; (void)v_;
  const T* c_ = (const T*)A[34]; (void)c_;
  T* r_ = (T*)A[35]; (void)r_;
  T* q_ = (T*)A[36]; (void)q_;
  const auto i = Ib{lo0, hi0};
  const auto j = Jb{lo1, hi1};
  auto u = make_md_span(u_, gu, Ib{lo0 - xl0, hi0 + xh0 + 1}, Jb{lo1 - xl1, hi1 + xh1}); (void)u;
  auto v = make_md_span(v_, gv, i, j); (void)v;
  auto c = make_md_span(c_, gc, i, j); (void)c;
  auto r = make_md_span(r_, gr, Jb{lo1 - yl1, hi1 + yh1}, Ib{lo0 - yl0, hi0 + yh0}); (void)r;
  auto q = make_md_span(q_, gr, Ib{lo0 - xl0, hi0 + xh0}, Jb{lo1 - xl1, hi1 + xh1 + 1}); (void)q;
  with_domain(i, j)(q = (c.shift_xy(-1, -1) + 2), r = 3 * q.shift_x(1) + v.shift_x(n1), q = 1.5 * r.shift_x(1) + (c.shift_x(n1) * v.grad_y(h1, up)));
  }
template <class T> static void e08_65(void** A) {
  const int lo0 = *(int*)A[0]; (void)lo0;
  const int hi0 = *(int*)A[1]; (void)hi0;
  const int lo1 = *(int*)A[2]; (void)lo1;
  const int hi1 = *(int*)A[3]; (void)hi1;
  const int lo2 = *(int*)A[4]; (void)lo2;
  const int hi2 = *(int*)A[5]; (void)hi2;
  const int s0 = *(int*)A[6]; (void)s0;
  const int s1 = *(int*)A[7]; (void)s1;
  const int s2 = *(int*)A[8]; (void)s2;
  const int gu = *(int*)A[9]; (void)gu;
  const int gv = *(int*)A[10]; (void)gv;
  const int gc = *(int*)A[11]; (void)gc;
  const int gr = *(int*)A[12]; (void)gr;
  const int xl0 = *(int*)A[13]; (void)xl0;
  const int xh0 = *(int*)A[14]; (void)xh0;
  const int xl1 = *(int*)A[15]; (void)xl1;
  const int xh1 = *(int*)A[16]; (void)xh1;
  const int xl2 = *(int*)A[17]; (void)xl2;
  const int xh2 = *(int*)A[18]; (void)xh2;
  const int yl0 = *(int*)A[19]; (void)yl0;
  const int yh0 = *(int*)A[20]; (void)yh0;
  const int yl1 = *(int*)A[21]; (void)yl1;
  const int yh1 = *(int*)A[22]; (void)yh1;
  const int yl2 = *(int*)A[23]; (void)yl2;
  const int yh2 = *(int*)A[24]; (void)yh2;
  const int n1 = *(int*)A[25]; (void)n1;
  const int n2 = *(int*)A[26]; (void)n2;
  const T a = *(T*)A[27]; (void)a;
  const T b = *(T*)A[28]; (void)b;
  const T h0 = *(T*)A[29]; (void)h0;
  const T h1 = *(T*)A[30]; (void)h1;
  const T h2 = *(T*)A[31]; (void)h2;
  const T* u_ = (const T*)A[32]; (void)u_;
  const T* v_ = (const T*)A[33]; (void)v_;
  const T* c_ = (const T*)A[34]; (void)c_;
  T* r_ = (T*)A[35]; (void)r_;
  T* q_ = (T*)A[36]; (void)q_;
  const auto i = Ib{lo0, hi0};
  const auto j = Jb{lo1, hi1};
  const auto k = Kb{lo2, hi2};
  auto u = make_md_span(u_, gu, Jb{lo1 - xl1, hi1 + xh1}, Ib{lo0 - xl0, hi0 + xh0}, Kb{lo2 - xl2, hi2 + xh2 + 1}); (void)u;
  auto v = make_md_span(v_, gv, i, j, k); (void)v;
  auto c = make_md_span(c_, gc, i + 1, j, k); (void)c;
  auto r = make_md_span(r_, gr, Kb{lo2 - yl2, hi2 + yh2}, Jb{lo1 - yl1, hi1 + yh1}, Ib{lo0 - yl0, hi0 + yh0}); (void)r;
  auto q = make_md_span(q_, gr, Jb{lo1 - xl1, hi1 + xh1 + 1}, Ib{lo0 - xl0, hi0 + xh0}, Kb{lo2 - xl2, hi2 + xh2}); (void)q;
  with_domain(i, j, k)(r = (1.5 * (v.grad_x(h0) * ((u.shift_y(-2) + a) * b))));
  }
template <class T> static void e08_s07(void** A) {
  const int lo0 = *(int*)A[0]; (void)lo0;
  const int hi0 = *(int*)A[1]; (void)hi0;
  const int lo1 = *(int*)A[2]; (void)lo1;
  const int hi1 = *(int*)A[3]; (void)hi1;
  const int lo2 = *(int*)A[4]; (void)lo2;
  const int hi2 = *(int*)A[5]; (void)hi2;
  const int s0 = *(int*)A[6]; (void)s0;
  const int s1 = *(int*)A[7]; (void)s1;
  const int s2 = *(int*)A[8]; (void)s2;
  const int gu = *(int*)A[9]; (void)gu;
  const int gv = *(int*)A[10]; (void)gv;
  const int gc = *(int*)A[11]; (void)gc;
  const int gr = *(int*)A[12]; (void)gr;
  const int xl0 = *(int*)A[13]; (void)xl0;
  const int xh0 = *(int*)A[14]; (void)xh0;
  const int xl1 = *(int*)A[15]; (void)xl1;
  const int xh1 = *(int*)A[16]; (void)xh1;
  const int xl2 = *(int*)A[17]; (void)xl2;
  const int xh2 = *(int*)A[18]; (void)xh2;
  const int yl0 = *(int*)A[19]; (void)yl0;
  const int yh0 = *(int*)A[20]; (void)yh0;
  const int yl1 = *(int*)A[21]; (void)yl1;
  const int yh1 = *(int*)A[22]; (void)yh1;
  const int yl2 = *(int*)A[23]; (void)yl2;
  const int yh2 = *(int*)A[24]; (void)yh2;
  const int n1 = *(int*)A[25]; (void)n1;
  const int n2 = *(int*)A[26]; (void)n2;
  const T a = *(T*)A[27]; (void)a;
  const T b = *(T*)A[28]; (void)b;
  const T h0 = *(T*)A[29]; (void)h0;
  const T h1 = *(T*)A[30]; (void)h1;
  const T h2 = *(T*)A[31]; (void)h2;
  const T* u_ = (const T*)A[32]; (void)u_;
  const T* v_ = (const T*)A[33]; (void)v_;
  const T* c_ = (const T*)A[34]; (void)c_;
  T* r_ = (T*)A[35]; (void)r_;
  T* q_ = (T*)A[36]; (void)q_;
  const auto i = (Ib{lo0 + 2, hi0 - 3} - 2) + 3;
  const auto j = Jb{lo1 + 1, hi1 - 1}.expand(1);
  const auto k = Kb{lo2 + 2, hi2} + -2;
  auto u = make_md_span(u_, gu, Ib{lo0 - xl0, hi0 + xh0}, Kb{lo2 - xl2, hi2 + xh2}, Jb{lo1 - xl1, hi1 + xh1}); (void)u;
  auto v = make_md_span(v_, gv, k, j, i); (void)v;
  auto c = make_md_span(c_, gc, j, k, i); (void)c;
  auto r = make_md_span(r_, gr, Kb{lo2 - yl2, hi2 + yh2}, Ib{lo0 - yl0, hi0 + yh0}, Jb{lo1 - yl1, hi1 + yh1}); (void)r;
  auto q = make_md_span(q_, gr, Kb{lo2 - xl2, hi2 + xh2}, Jb{lo1 - xl1, hi1 + xh1}, Ib{lo0 - xl0, hi0 + xh0}); (void)q;
  with_domain(k, i, j)(r = a * u.shift_z(n1) + a * v.grad_x(h0) + T(0.5) * c.grad_x(h0, up));
  }
template <class T> static void e08_s15(void** A) {
  const int lo0 = *(int*)A[0]; (void)lo0;
  const int hi0 = *(int*)A[1]; (void)hi0;
  const int lo1 = *(int*)A[2]; (void)lo1;
  const int hi1 = *(int*)A[3]; (void)hi1;
  const int lo2 = *(int*)A[4]; (void)lo2;
  const int hi2 = *(int*)A[5]; (void)hi2;
  const int s0 = *(int*)A[6]; (void)s0;
  const int s1 = *(int*)A[7]; (void)s1;
  const int s2 = *(int*)A[8]; (void)s2;
  const int gu = *(int*)A[9]; (void)gu;
  const int gv = *(int*)A[10]; (void)gv;
  const int gc = *(int*)A[11]; (void)gc;
  const int gr = *(int*)A[12]; (void)gr;
  const int xl0 = *(int*)A[13]; (void)xl0;
  const int xh0 = *(int*)A[14]; (void)xh0;
  const int xl1 = *(int*)A[15]; (void)xl1;
  const int xh1 = *(int*)A[16]; (void)xh1;
  const int xl2 = *(int*)A[17]; (void)xl2;
  const int xh2 = *(int*)A[18]; (void)xh2;
  const int yl0 = *(int*)A[19]; (void)yl0;
  const int yh0 = *(int*)A[20]; (void)yh0;
  const int yl1 = *(int*)A[21]; (void)yl1;
  const int yh1 = *(int*)A[22]; (void)yh1;
  const int yl2 = *(int*)A[23]; (void)yl2;
  const int yh2 = *(int*)A[24]; (void)yh2;
  const int n1 = *(int*)A[25]; (void)n1;
  const int n2 = *(int*)A[26]; (void)n2;
  const T a = *(T*)A[27]; (void)a;
  const T b = *(T*)A[28]; (void)b;
  const T h0 = *(T*)A[29]; (void)h0;
  const T h1 = *(T*)A[30]; (void)h1;
  const T h2 = *(T*)A[31]; (void)h2;
  const T* u_ = (const T*)A[32]; (void)u_;
  const T* v_ = (const T*)A[33]; (void)v_;
  const T* c_ = (const T*)A[34]; (void)c_;
  T* r_ = (T*)A[35]; (void)r_;
  T* q_ = (T*)A[36]; (void)q_;
  const auto i = Ib{lo0, hi0};
  const auto j = Jb{lo1, hi1};
  const auto k = Kb{lo2, hi2};
  auto u = make_md_span(u_, gu, Kb{lo2 - xl2, hi2 + xh2}, Jb{lo1 - xl1, hi1 + xh1}, Ib{lo0 - xl0, hi0 + xh0}); (void)u;
  auto v = make_md_span(v_, gv, k, i, j); (void)v;
  auto c = make_md_span(c_, gc, j, k, i); (void)c;
  auto r = make_md_span(r_, gr, Jb{lo1 - yl1, hi1 + yh1}, Kb{lo2 - yl2, hi2 + yh2}, Ib{lo0 - yl0, hi0 + yh0 + 1}); (void)r;
  auto q = make_md_span(q_, gr, Jb{lo1 - xl1, hi1 + xh1}, Ib{lo0 - xl0, hi0 + xh0}, Kb{lo2 - xl2, hi2 + xh2}); (void)q;
  with_domain(j, k, i)(q = u.grad_y(h1, down), r = v.grad_y(h1) + c.shift_y(n1));
  }
template <class T> static void e08_s23(void** A) {
  const int lo0 = *(int*)A[0]; (void)lo0;
  const int hi0 = *(int*)A[1]; (void)hi0;
  const int lo1 = *(int*)A[2]; (void)lo1;
  const int hi1 = *(int*)A[3]; (void)hi1;
  const int lo2 = *(int*)A[4]; (void)lo2;
  const int hi2 = *(int*)A[5]; (void)hi2;
  const int s0 = *(int*)A[6]; (void)s0;
  const int s1 = *(int*)A[7]; (void)s1;
  const int s2 = *(int*)A[8]; (void)s2;
  const int gu = *(int*)A[9]; (void)gu;
  const int gv = *(int*)A[10]; (void)gv;
  const int gc = *(int*)A[11]; (void)gc;
  const int gr = *(int*)A[12]; (void)gr;
  const int xl0 = *(int*)A[13]; (void)xl0;
  const int xh0 = *(int*)A[14]; (void)xh0;
  const int xl1 = *(int*)A[15]; (void)xl1;
  const int xh1 = *(int*)A[16]; (void)xh1;
  const int xl2 = *(int*)A[17]; (void)xl2;
  const int xh2 = *(int*)A[18]; (void)xh2;
  const int yl0 = *(int*)A[19]; (void)yl0;
  const int yh0 = *(int*)A[20]; (void)yh0;
  const int yl1 = *(int*)A[21]; (void)yl1;
  const int yh1 = *(int*)A[22]; (void)yh1;
  const int yl2 = *(int*)A[23]; (void)yl2;
  const int yh2 = *(int*)A[24]; (void)yh2;
  const int n1 = *(int*)A[25]; (void)n1;
  const int n2 = *(int*)A[26]; (void)n2;
  const T a = *(T*)A[27]; (void)a;
  const T b = *(T*)A[28]; (void)b;
  const T h0 = *(T*)A[29]; (void)h0;
  const T h1 = *(T*)A[30]; (void)h1;
  const T h2 = *(T*)A[31]; (void)h2;
  const T* u_ = (const T*)A[32]; (void)u_;
  const T* v_ = (const T*)A[33]; (void)v_;
  const T* c_ = (const T*)A[34]; (void)c_;
  T* r_ = (T*)A[35]; (void)r_;
  T* q_ = (T*)A[36]; (void)q_;
  const auto i = Ib{lo0, hi0, 3}.unit_stride();
  const auto j = Jb{lo1 - n1, hi1 - n1}.shift(n1);
  const auto k = (Kb{lo2 + 2, hi2 - 3} - 2) + 3;
  auto u = make_md_span(u_, gu, Kb{lo2 - xl2, hi2 + xh2}, Jb{lo1 - xl1, hi1 + xh1}, Ib{lo0 - xl0, hi0 + xh0}); (void)u;
  auto v = make_md_span(v_, gv, k, j, i); (void)v;
  auto c = make_md_span(c_, gc, j, k + 1, i); (void)c;
  auto r = make_md_span(r_, gr, Kb{lo2 - yl2, hi2 + yh2}, Ib{lo0 - yl0, hi0 + yh0}, Jb{lo1 - yl1, hi1 + yh1}); (void)r;
  auto q = make_md_span(q_, gr, Jb{lo1 - xl1, hi1 + xh1}, Ib{lo0 - xl0, hi0 + xh0}, Kb{lo2 - xl2, hi2 + xh2}); (void)q;
  with_domain(j, i, k)(r = T(0.5) * u.shift_y(n1) + T(0.5) * v.grad_x(h0, down) + 2 * c.grad_z(h2, down));
  }
template <class T> static void e08_s31(void** A) {
  const int lo0 = *(int*)A[0]; (void)lo0;
  const int hi0 = *(int*)A[1]; (void)hi0;
  const int lo1 = *(int*)A[2]; (void)lo1;
  const int hi1 = *(int*)A[3]; (void)hi1;
  const int lo2 = *(int*)A[4]; (void)lo2;
  const int hi2 = *(int*)A[5]; (void)hi2;
  const int s0 = *(int*)A[6]; (void)s0;
  const int s1 = *(int*)A[7]; (void)s1;
  const int s2 = *(int*)A[8]; (void)s2;
  const int gu = *(int*)A[9]; (void)gu;
  const int gv = *(int*)A[10]; (void)gv;
  const int gc = *(int*)A[11]; (void)gc;
  const int gr = *(int*)A[12]; (void)gr;
  const int xl0 = *(int*)A[13]; (void)xl0;
  const int xh0 = *(int*)A[14]; (void)xh0;
  const int xl1 = *(int*)A[15]; (void)xl1;
  const int xh1 = *(int*)A[16]; (void)xh1;
  const int xl2 = *(int*)A[17]; (void)xl2;
  const int xh2 = *(int*)A[18]; (void)xh2;
  const int yl0 = *(int*)A[19]; (void)yl0;
  const int yh0 = *(int*)A[20]; (void)yh0;
  const int yl1 = *(int*)A[21]; (void)yl1;
  const int yh1 = *(int*)A[22]; (void)yh1;
  const int yl2 = *(int*)A[23]; (void)yl2;
  const int yh2 = *(int*)A[24]; (void)yh2;
  const int n1 = *(int*)A[25]; (void)n1;
  const int n2 = *(int*)A[26]; (void)n2;
  const T a = *(T*)A[27]; (void)a;
  const T b = *(T*)A[28]; (void)b;
  const T h0 = *(T*)A[29]; (void)h0;
  const T h1 = *(T*)A[30]; (void)h1;
  const T h2 = *(T*)A[31]; (void)h2;
  const T* u_ = (const T*)A[32]; (void)u_;
  const T* v_ = (const T*)A[33]; (void)v_;
  const T* c_ = (const T*)A[34]; (void)c_;
  T* r_ = (T*)A[35]; (void)r_;
  T* q_ = (T*)A[36]; (void)q_;
  const auto i = (Ib{lo0 + 2, hi0 - 3} - 2) + 3;
  const auto j = Jb{lo1 + 1, hi1 - 1}.expand(1);
  const auto k = Kb{lo2 + 2, hi2} + -2;
  auto u = make_md_span(u_, gu, Jb{lo1 - xl1, hi1 + xh1 + 1}, Ib{lo0 - xl0, hi0 + xh0}, Kb{lo2 - xl2, hi2 + xh2}); (void)u;
  auto v = make_md_span(v_, gv, i, k, j); (void)v;
  auto c = make_md_span(c_, gc, k, j, i); (void)c;
  auto r = make_md_span(r_, gr, Kb{lo2 - yl2, hi2 + yh2}, Ib{lo0 - yl0, hi0 + yh0}, Jb{lo1 - yl1, hi1 + yh1}); (void)r;
  auto q = make_md_span(q_, gr, Kb{lo2 - xl2, hi2 + xh2}, Jb{lo1 - xl1, hi1 + xh1}, Ib{lo0 - xl0, hi0 + xh0}); (void)q;
  with_domain(j, k, i)(r = T(0.5) * u.grad_x(h0, up) + 2 * v.grad_y(h1, up) + b * c.shift_xy());
  }
template <class T> static void e08_s39(void** A) {
  const int lo0 = *(int*)A[0]; (void)lo0;
  const int hi0 = *(int*)A[1]; (void)hi0;
  const int lo1 = *(int*)A[2]; (void)lo1;
  const int hi1 = *(int*)A[3]; (void)hi1;
  const int lo2 = *(int*)A[4]; (void)lo2;
  const int hi2 = *(int*)A[5]; (void)hi2;
  const int s0 = *(int*)A[6]; (void)s0;
  const int s1 = *(int*)A[7]; (void)s1;
  const int s2 = *(int*)A[8]; (void)s2;
  const int gu = *(int*)A[9]; (void)gu;
  const int gv = *(int*)A[10]; (void)gv;
  const int gc = *(int*)A[11]; (void)gc;
  const int gr = *(int*)A[12]; (void)gr;
  const int xl0 = *(int*)A[13]; (void)xl0;
  const int xh0 = *(int*)A[14]; (void)xh0;
  const int xl1 = *(int*)A[15]; (void)xl1;
  const int xh1 = *(int*)A[16]; (void)xh1;
  const int xl2 = *(int*)A[17]; (void)xl2;
  const int xh2 = *(int*)A[18]; (void)xh2;
  const int yl0 = *(int*)A[19]; (void)yl0;
  const int yh0 = *(int*)A[20]; (void)yh0;
  const int yl1 = *(int*)A[21]; (void)yl1;
  const int yh1 = *(int*)A[22]; (void)yh1;
  const int yl2 = *(int*)A[23]; (void)yl2;
  const int yh2 = *(int*)A[24]; (void)yh2;
  const int n1 = *(int*)A[25]; (void)n1;
  const int n2 = *(int*)A[26]; (void)n2;
  const T a = *(T*)A[27]; (void)a;
  const T b = *(T*)A[28]; (void)b;
  const T h0 = *(T*)A[29]; (void)h0;
  const T h1 = *(T*)A[30]; (void)h1;
  const T h2 = *(T*)A[31]; (void)h2;
  const T* u_ = (const T*)A[32]; (void)u_;
  const T* v_ = (const T*)A[33]; (void)v_;
  const T* c_ = (const T*)A[34]; (void)c_;
  T* r_ = (T*)A[35]; (void)r_;
  T* q_ = (T*)A[36]; (void)q_;
  const auto i = Ib{lo0, hi0};
  const auto j = Jb{lo1, hi1};
  const auto k = Kb{lo2, hi2};
  auto u = make_md_span(u_, gu, Kb{lo2 - xl2, hi2 + xh2}, Jb{lo1 - xl1, hi1 + xh1}, Ib{lo0 - xl0, hi0 + xh0}); (void)u;
  auto v = make_md_span(v_, gv, k, i, j); (void)v;
  auto c = make_md_span(c_, gc, j, i, k); (void)c;
  auto r = make_md_span(r_, gr, Kb{lo2 - yl2, hi2 + yh2}, Ib{lo0 - yl0, hi0 + yh0}, Jb{lo1 - yl1, hi1 + yh1}); (void)r;
  auto q = make_md_span(q_, gr, Kb{lo2 - xl2, hi2 + xh2}, Jb{lo1 - xl1, hi1 + xh1}, Ib{lo0 - xl0, hi0 + xh0}); (void)q;
  with_domain(i, j, k)(r = a * u.shift_yz(n1, n2) + T(0.5) * v.grad_y(h1, up) + b * c.grad_y(h1));
  }
template <class T> static void e08_s47(void** A) {
  const int lo0 = *(int*)A[0]; (void)lo0;
  const int hi0 = *(int*)A[1]; (void)hi0;
  const int lo1 = *(int*)A[2]; (void)lo1;
  const int hi1 = *(int*)A[3]; (void)hi1;
  const int lo2 = *(int*)A[4]; (void)lo2;
  const int hi2 = *(int*)A[5]; (void)hi2;
  const int s0 = *(int*)A[6]; (void)s0;
  const int s1 = *(int*)A[7]; (void)s1;
  const int s2 = *(int*)A[8]; (void)s2;
  const int gu = *(int*)A[9]; (void)gu;
  const int gv = *(int*)A[10]; (void)gv;
  const int gc = *(int*)A[11]; (void)gc;
  const int gr = *(int*)A[12]; (void)gr;
  const int xl0 = *(int*)A[13]; (void)xl0;
  const int xh0 = *(int*)A[14]; (void)xh0;
  const int xl1 = *(int*)A[15]; (void)xl1;
  const int xh1 = *(int*)A[16]; (void)xh1;
  const int xl2 = *(int*)A[17]; (void)xl2;
  const int xh2 = *(int*)A[18]; (void)xh2;
  const int yl0 = *(int*)A[19]; (void)yl0;
  const int yh0 = *(int*)A[20]; (void)yh0;
  const int yl1 = *(int*)A[21]; (void)yl1;
  const int yh1 = *(int*)A[22]; (void)yh1;
  const int yl2 = *(int*)A[23]; (void)yl2;
  const int yh2 = *(int*)A[24]; (void)yh2;
  const int n1 = *(int*)A[25]; (void)n1;
  const int n2 = *(int*)A[26]; (void)n2;
  const T a = *(T*)A[27]; (void)a;
  const T b = *(T*)A[28]; (void)b;
  const T h0 = *(T*)A[29]; (void)h0;
  const T h1 = *(T*)A[30]; (void)h1;
  const T h2 = *(T*)A[31]; (void)h2;
  const T* u_ = (const T*)A[32]; (void)u_;
  const T* v_ = (const T*)A[33]; (void)v_;
  const T* c_ = (const T*)A[34]; (void)c_;
  T* r_ = (T*)A[35]; (void)r_;
  T* q_ = (T*)A[36]; (void)q_;
  const auto i = Ib{lo0, hi0};
  const auto k = Kb{lo2, hi2};
  auto u = make_md_span(u_, gu, Ib{lo0 - xl0, hi0 + xh0}, Kb{lo2 - xl2, hi2 + xh2}); (void)u;
  auto v = make_md_span(v_, gv, k, i); (void)v;
  auto c = make_md_span(c_, gc, k, i); (void)c;
  auto r = make_md_span(r_, gr, Ib{lo0 - yl0, hi0 + yh0}, Kb{lo2 - yl2, hi2 + yh2}); (void)r;
  auto q = make_md_span(q_, gr, Ib{lo0 - xl0, hi0 + xh0}, Kb{lo2 - xl2, hi2 + xh2}); (void)q;
  with_domain(i, k)(q = u.grad_x(h0), r = v.grad_z(h2, down) + c.shift_xz());
  }
template <class T> static void e08_s55(void** A) {
  const int lo0 = *(int*)A[0]; (void)lo0;
  const int hi0 = *(int*)A[1]; (void)hi0;
  const int lo1 = *(int*)A[2]; (void)lo1;
  const int hi1 = *(int*)A[3]; (void)hi1;
  const int lo2 = *(int*)A[4]; (void)lo2;
  const int hi2 = *(int*)A[5]; (void)hi2;
  const int s0 = *(int*)A[6]; (void)s0;
  const int s1 = *(int*)A[7]; (void)s1;
  const int s2 = *(int*)A[8]; (void)s2;
  const int gu = *(int*)A[9]; (void)gu;
  const int gv = *(int*)A[10]; (void)gv;
  const int gc = *(int*)A[11]; (void)gc;
  const int gr = *(int*)A[12]; (void)gr;
  const int xl0 = *(int*)A[13]; (void)xl0;
  const int xh0 = *(int*)A[14]; (void)xh0;
  const int xl1 = *(int*)A[15]; (void)xl1;
  const int xh1 = *(int*)A[16]; (void)xh1;
  const int xl2 = *(int*)A[17]; (void)xl2;
  const int xh2 = *(int*)A[18]; (void)xh2;
  const int yl0 = *(int*)A[19]; (void)yl0;
  const int yh0 = *(int*)A[20]; (void)yh0;
  const int yl1 = *(int*)A[21]; (void)yl1;
  const int yh1 = *(int*)A[22]; (void)yh1;
  const int yl2 = *(int*)A[23]; (void)yl2;
  const int yh2 = *(int*)A[24]; (void)yh2;
  const int n1 = *(int*)A[25]; (void)n1;
  const int n2 = *(int*)A[26]; (void)n2;
  const T a = *(T*)A[27]; (void)a;
  const T b = *(T*)A[28]; (void)b;
  const T h0 = *(T*)A[29]; (void)h0;
  const T h1 = *(T*)A[30]; (void)h1;
  const T h2 = *(T*)A[31]; (void)h2;
  const T* u_ = (const T*)A[32]; (void)u_;
  const T* v_ = (const T*)A[33]; (void)v_;
  const T* c_ = (const T*)A[34]; (void)c_;
  T* r_ = (T*)A[35]; (void)r_;
  T* q_ = (T*)A[36]; (void)q_;
  const auto j = Jb{lo1 + 1, hi1 - 1}.expand(1);
  const auto k = Kb{lo2 + 2, hi2} + -2;
  auto u = make_md_span(u_, gu, Jb{lo1 - xl1, hi1 + xh1}, Kb{lo2 - xl2, hi2 + xh2}); (void)u;
  auto v = make_md_span(v_, gv, k, j); (void)v;
  auto c = make_md_span(c_, gc, k, j); (void)c;
  auto r = make_md_span(r_, gr, Jb{lo1 - yl1, hi1 + yh1}, Kb{lo2 - yl2, hi2 + yh2}); (void)r;
  auto q = make_md_span(q_, gr, Kb{lo2 - xl2, hi2 + xh2}, Jb{lo1 - xl1, hi1 + xh1}); (void)q;
  auto e = 2 * u.shift_z(n1) + 2 * v.grad_y(h1, up) + 3 * c.shift_yz(n1, n2);
  with_domain(k, j)(r = e, q = e - a);
  }
template <class T> static void e08_f02(void** A) {
  const int lo0 = *(int*)A[0]; (void)lo0;
  const int hi0 = *(int*)A[1]; (void)hi0;
  const int lo1 = *(int*)A[2]; (void)lo1;
  const int hi1 = *(int*)A[3]; (void)hi1;
  const int lo2 = *(int*)A[4]; (void)lo2;
  const int hi2 = *(int*)A[5]; (void)hi2;
  const int s0 = *(int*)A[6]; (void)s0;
  const int s1 = *(int*)A[7]; (void)s1;
  const int s2 = *(int*)A[8]; (void)s2;
  const int gu = *(int*)A[9]; (void)gu;
  const int gv = *(int*)A[10]; (void)gv;
  const int gc = *(int*)A[11]; (void)gc;
  const int gr = *(int*)A[12]; (void)gr;
  const int xl0 = *(int*)A[13]; (void)xl0;
  const int xh0 = *(int*)A[14]; (void)xh0;
  const int xl1 = *(int*)A[15]; (void)xl1;
  const int xh1 = *(int*)A[16]; (void)xh1;
  const int xl2 = *(int*)A[17]; (void)xl2;
  const int xh2 = *(int*)A[18]; (void)xh2;
  const int yl0 = *(int*)A[19]; (void)yl0;
  const int yh0 = *(int*)A[20]; (void)yh0;
  const int yl1 = *(int*)A[21]; (void)yl1;
  const int yh1 = *(int*)A[22]; (void)yh1;
  const int yl2 = *(int*)A[23]; (void)yl2;
  const int yh2 = *(int*)A[24]; (void)yh2;
  const int n1 = *(int*)A[25]; (void)n1;
  const int n2 = *(int*)A[26]; (void)n2;
  const T a = *(T*)A[27]; (void)a;
  const T b = *(T*)A[28]; (void)b;
  const T h0 = *(T*)A[29]; (void)h0;
  const T h1 = *(T*)A[30]; (void)h1;
  const T h2 = *(T*)A[31]; (void)h2;
  const T* u_ = (const T*)A[32]; (void)u_;
  const T* v_ = (const T*)A[33]; (void)v_;
  const T* c_ = (const T*)A[34]; (void)c_;
  T* r_ = (T*)A[35]; (void)r_;
  T* q_ = (T*)A[36]; (void)q_;
  const auto i = Ib{lo0, hi0};
  const auto j = Jb{lo1, hi1};
  const int rt = 2 + (n1 < 0 ? -n1 : n1), st = (n2 < 0 ? -n2 : n2) % rt;
  auto u = make_md_span(u_, gu, Jb{lo1 - xl1, hi1 + xh1}, Ib{lo0 - xl0, hi0 + xh0}); (void)u;
  auto v = make_md_span(v_, gv, i, j); (void)v;
  auto c = make_md_span(c_, gc, j, i); (void)c;
  auto r = make_md_span(r_, gr, Ib{lo0 * rt, hi0 * rt + rt - 1}, j); (void)r;
  auto q = make_md_span(q_, gr, Ib{lo0 * rt, hi0 * rt + rt - 1}, j); (void)q;
  with_domain(Jb{lo1, lo1}, Ib{lo0 * rt + st, hi0 * rt + rt - 1})(r = u.fine(rt, Jb{hi1, hi1}));
  with_domain(Jb{hi1, hi1}, Ib{lo0 * rt + st, hi0 * rt + rt - 1})(q = v.fine(rt, Jb{lo1, lo1}));
  r.at(lo0 * rt, lo1) = c.at(hi1, hi0);
  }
template <class T> static void e08_f10(void** A) {
  const int lo0 = *(int*)A[0]; (void)lo0;
  const int hi0 = *(int*)A[1]; (void)hi0;
  const int lo1 = *(int*)A[2]; (void)lo1;
  const int hi1 = *(int*)A[3]; (void)hi1;
  const int lo2 = *(int*)A[4]; (void)lo2;
  const int hi2 = *(int*)A[5]; (void)hi2;
  const int s0 = *(int*)A[6]; (void)s0;
  const int s1 = *(int*)A[7]; (void)s1;
  const int s2 = *(int*)A[8]; (void)s2;
  const int gu = *(int*)A[9]; (void)gu;
  const int gv = *(int*)A[10]; (void)gv;
  const int gc = *(int*)A[11]; (void)gc;
  const int gr = *(int*)A[12]; (void)gr;
  const int xl0 = *(int*)A[13]; (void)xl0;
  const int xh0 = *(int*)A[14]; (void)xh0;
  const int xl1 = *(int*)A[15]; (void)xl1;
  const int xh1 = *(int*)A[16]; (void)xh1;
  const int xl2 = *(int*)A[17]; (void)xl2;
  const int xh2 = *(int*)A[18]; (void)xh2;
  const int yl0 = *(int*)A[19]; (void)yl0;
  const int yh0 = *(int*)A[20]; (void)yh0;
  const int yl1 = *(int*)A[21]; (void)yl1;
  const int yh1 = *(int*)A[22]; (void)yh1;
  const int yl2 = *(int*)A[23]; (void)yl2;
  const int yh2 = *(int*)A[24]; (void)yh2;
  const int n1 = *(int*)A[25]; (void)n1;
  const int n2 = *(int*)A[26]; (void)n2;
  const T a = *(T*)A[27]; (void)a;
  const T b = *(T*)A[28]; (void)b;
  const T h0 = *(T*)A[29]; (void)h0;
  const T h1 = *(T*)A[30]; (void)h1;
  const T h2 = *(T*)A[31]; (void)h2;
  const T* u_ = (const T*)A[32]; (void)u_;
  const T* v_ = (const T*)A[33]; (void)v_;
  const T* c_ = (const T*)A[34]; (void)c_;
  T* r_ = (T*)A[35]; (void)r_;
  T* q_ = (T*)A[36]; (void)q_;
  const auto i = Ib{lo0, hi0};
  const auto j = Jb{lo1, hi1};
  const auto k = Kb{lo2, hi2};
  const int rt = 2 + (n1 < 0 ? -n1 : n1), st = (n2 < 0 ? -n2 : n2) % rt;
  auto u = make_md_span(u_, gu, Kb{lo2 - xl2, hi2 + xh2}, Ib{lo0 - xl0, hi0 + xh0}, Jb{lo1 - xl1, hi1 + xh1}); (void)u;
  auto v = make_md_span(v_, gv, j, i, k); (void)v;
  auto c = make_md_span(c_, gc, j, k, i); (void)c;
  auto r = make_md_span(r_, gr, j, Kb{lo2 * rt, hi2 * rt + rt - 1}, i); (void)r;
  auto q = make_md_span(q_, gr, i, Kb{lo2 * rt, hi2 * rt + rt - 1}, j); (void)q;
  with_domain(Jb{lo1, lo1}, Ib{lo0, lo0}, Kb{lo2 * rt + st, hi2 * rt + rt - 1})(r = u.fine(rt, Ib{hi0, hi0}, Jb{hi1, hi1}));
  with_domain(Jb{hi1, hi1}, Ib{hi0, hi0}, Kb{lo2 * rt + st, hi2 * rt + rt - 1})(q = v.fine(rt, Ib{lo0, lo0}, Jb{lo1, lo1}));
  r.at(lo1, lo2 * rt, lo0) = c.at(hi1, hi2, hi0);
  }
struct Reg { Reg() {
  sim_register_harness("e08_01", 0, 0, e08_01<double>); sim_register_harness("e08_01", 1, 0, e08_01<float>);
  sim_register_harness("e08_09", 0, 0, e08_09<double>); sim_register_harness("e08_09", 1, 0, e08_09<float>);
  sim_register_harness("e08_17", 0, 0, e08_17<double>); sim_register_harness("e08_17", 1, 0, e08_17<float>);
  sim_register_harness("e08_25", 0, 0, e08_25<double>); sim_register_harness("e08_25", 1, 0, e08_25<float>);
  sim_register_harness("e08_33", 0, 0, e08_33<double>); sim_register_harness("e08_33", 1, 0, e08_33<float>);
  sim_register_harness("e08_41", 0, 0, e08_41<double>); sim_register_harness("e08_41", 1, 0, e08_41<float>);
  sim_register_harness("e08_49", 0, 0, e08_49<double>); sim_register_harness("e08_49", 1, 0, e08_49<float>);
  sim_register_harness("e08_57", 0, 0, e08_57<double>); sim_register_harness("e08_57", 1, 0, e08_57<float>);
  sim_register_harness("e08_65", 0, 0, e08_65<double>); sim_register_harness("e08_65", 1, 0, e08_65<float>);
  sim_register_harness("e08_s07", 0, 0, e08_s07<double>); sim_register_harness("e08_s07", 1, 0, e08_s07<float>);
  sim_register_harness("e08_s15", 0, 0, e08_s15<double>); sim_register_harness("e08_s15", 1, 0, e08_s15<float>);
  sim_register_harness("e08_s23", 0, 0, e08_s23<double>); sim_register_harness("e08_s23", 1, 0, e08_s23<float>);
  sim_register_harness("e08_s31", 0, 0, e08_s31<double>); sim_register_harness("e08_s31", 1, 0, e08_s31<float>);
  sim_register_harness("e08_s39", 0, 0, e08_s39<double>); sim_register_harness("e08_s39", 1, 0, e08_s39<float>);
  sim_register_harness("e08_s47", 0, 0, e08_s47<double>); sim_register_harness("e08_s47", 1, 0, e08_s47<float>);
  sim_register_harness("e08_s55", 0, 0, e08_s55<double>); sim_register_harness("e08_s55", 1, 0, e08_s55<float>);
  sim_register_harness("e08_f02", 0, 0, e08_f02<double>); sim_register_harness("e08_f02", 1, 0, e08_f02<float>);
  sim_register_harness("e08_f10", 0, 0, e08_f10<double>); sim_register_harness("e08_f10", 1, 0, e08_f10<float>);
} } reg;
}
