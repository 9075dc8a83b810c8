// generated by tools/gen_h.py
#include "md_device_span.hpp"
extern "C" void sim_register_harness(const char*, int, int, void (*)(void**));
namespace {
template <class T> static void e08_03(void** A) {
  const int lo0 = *(int*)A[0]; (void)lo0;
  const int hi0 = *(int*)A[1]; (void)hi0;
  const int lo1 = *(int*)A[2]; (void)lo1;
  const int hi1 = *(int*)A[3]; (void)hi1;
  const int lo2 = *(int*)A[4]; (void)lo2;
  const int hi2 = *(int*)A[5]; (void)hi2;
  const int s0 = *(int*)A[6]; (void)s0;
  const int s1 = *(int*)A[7]; (void)s1;
  const int s2 = *(int*)A[8]; (void)s2;
  const int gu = *(int*)A[9]; (void)gu;
  const int gv = *(int*)A[10]; (void)gv;
  const int gc = *(int*)A[11]; (void)gc;
  const int gr = *(int*)A[12]; (void)gr;
  const int xl0 = *(int*)A[13]; (void)xl0;
  const int xh0 = *(int*)A[14]; (void)xh0;
  const int xl1 = *(int*)A[15]; (void)xl1;
  const int xh1 = *(int*)A[16]; (void)xh1;
  const int xl2 = *(int*)A[17]; (void)xl2;
  const int xh2 = *(int*)A[18]; (void)xh2;
  const int yl0 = *(int*)A[19]; (void)yl0;
  const int yh0 = *(int*)A[20]; (void)yh0;
  const int yl1 = *(int*)A[21]; (void)yl1;
  const int yh1 = *(int*)A[22]; (void)yh1;
  const int yl2 = *(int*)A[23]; (void)yl2;
  const int yh2 = *(int*)A[24]; (void)yh2;
  const int n1 = *(int*)A[25]; (void)n1;
  const int n2 = *(int*)A[26]; (void)n2;
  const T a = *(T*)A[27]; (void)a;
  const T b = *(T*)A[28]; (void)b;
  const T h0 = *(T*)A[29]; (void)h0;
  const T h1 = *(T*)A[30]; (void)h1;
  const T h2 = *(T*)A[31]; (void)h2;
  const T* u_ = (const T*)A[32]; (void)u_;
  const T* v_ = (const T*)A[33]; (void)v_;
  const T* c_ = (const T*)A[34]; (void)c_;
  T* r_ = (T*)A[35]; (void)r_;
  T* q_ = (T*)A[36]; (void)q_;
  const auto i = Ib{lo0, hi0};
  auto u = make_md_span(u_, gu, Ib{lo0 - xl0, hi0 + xh0 + 1}); (void)u;
  auto v = make_md_span(v_, gv, i + 1); (void)v;
  auto c = make_md_span(c_, gc, i); (void)c;
  auto r = make_md_span(r_, gr, Ib{lo0 - yl0, hi0 + yh0 + 1}); (void)r;
  auto q = make_md_span(q_, gr, Ib{lo0 - xl0, hi0 + xh0}); (void)q;
  with_domain(i)(r = (v.grad_x(h0, up) + -1));
  }
template <class T> static void e08_11(void** A) {
  const int lo0 = *(int*)A[0]; (void)lo0;
  const int hi0 = *(int*)A[1]; (void)hi0;
  const int lo1 = *(int*)A[2]; (void)lo1;
  const int hi1 = *(int*)A[3]; (void)hi1;
  const int lo2 = *(int*)A[4]; (void)lo2;
  const int hi2 = *(int*)A[5]; (void)hi2;
  const int s0 = *(int*)A[6]; (void)s0;
  const int s1 = *(int*)A[7]; (void)s1;
  const int s2 = *(int*)A[8]; (void)s2;
  const int gu = *(int*)A[9]; (void)gu;
  const int gv = *(int*)A[10]; (void)gv;
  const int gc = *(int*)A[11]; (void)gc;
  const int gr = *(int*)A[12]; (void)gr;
  const int xl0 = *(int*)A[13]; (void)xl0;
  const int xh0 = *(int*)A[14]; (void)xh0;
  const int xl1 = *(int*)A[15]; (void)xl1;
  const int xh1 = *(int*)A[16]; (void)xh1;
  const int xl2 = *(int*)A[17]; (void)xl2;
  const int xh2 = *(int*)A[18]; (void)xh2;
  const int yl0 = *(int*)A[19]; (void)yl0;
  const int yh0 = *(int*)A[20]; (void)yh0;
  const int yl1 = *(int*)A[21]; (void)yl1;
  const int yh1 = *(int*)A[22]; (void)yh1;
  const int yl2 = *(int*)A[23]; (void)yl2;
  const int yh2 = *(int*)A[24]; (void)yh2;
  const int n1 = *(int*)A[25]; (void)n1;
  const int n2 = *(int*)A[26]; (void)n2;
  const T a = *(T*)A[27]; (void)a;
  const T b = *(T*)A[28]; (void)b;
  const T h0 = *(T*)A[29]; (void)h0;
  const T h1 = *(T*)A[30]; (void)h1;
  const T h2 = *(T*)A[31]; (void)h2;
  const T* u_ = (const T*)A[32]; (void)u_;
  const T* v_ = (const T*)A[33]; (void)v_;
  const T* c_ = (const T*)A[34]; (void)c_;
  T* r_ = (T*)A[35]; (void)r_;
  T* q_ = (T*)A[36]; (void)q_;
  const auto i = Ib{lo0, hi0};
  auto u = make_md_span(u_, gu, Ib{lo0 - xl0, hi0 + xh0}); (void)u;
  auto v = make_md_span(v_, gv, i); (void)v;
  auto c = make_md_span(c_, gc, i); (void)c;
  auto r = make_md_span(r_, gr, Ib{lo0 - yl0, hi0 + yh0}); (void)r;
  auto q = make_md_span(q_, gr, Ib{lo0 - xl0, hi0 + xh0}); (void)q;
  with_domain(Ib{lo0, hi0, s0})(r = a);
  }
template <class T> static void e08_19(void** A) {
  const int lo0 = *(int*)A[0]; (void)lo0;
  const int hi0 = *(int*)A[1]; (void)hi0;
  const int lo1 = *(int*)A[2]; (void)lo1;
  const int hi1 = *(int*)A[3]; (void)hi1;
  const int lo2 = *(int*)A[4]; (void)lo2;
  const int hi2 = *(int*)A[5]; (void)hi2;
  const int s0 = *(int*)A[6]; (void)s0;
  const int s1 = *(int*)A[7]; (void)s1;
  const int s2 = *(int*)A[8]; (void)s2;
  const int gu = *(int*)A[9]; (void)gu;
  const int gv = *(int*)A[10]; (void)gv;
  const int gc = *(int*)A[11]; (void)gc;
  const int gr = *(int*)A[12]; (void)gr;
  const int xl0 = *(int*)A[13]; (void)xl0;
  const int xh0 = *(int*)A[14]; (void)xh0;
  const int xl1 = *(int*)A[15]; (void)xl1;
  const int xh1 = *(int*)A[16]; (void)xh1;
  const int xl2 = *(int*)A[17]; (void)xl2;
  const int xh2 = *(int*)A[18]; (void)xh2;
  const int yl0 = *(int*)A[19]; (void)yl0;
  const int yh0 = *(int*)A[20]; (void)yh0;
  const int yl1 = *(int*)A[21]; (void)yl1;
  const int yh1 = *(int*)A[22]; (void)yh1;
  const int yl2 = *(int*)A[23]; (void)yl2;
  const int yh2 = *(int*)A[24]; (void)yh2;
  const int n1 = *(int*)A[25]; (void)n1;
  const int n2 = *(int*)A[26]; (void)n2;
  const T a = *(T*)A[27]; (void)a;
  const T b = *(T*)A[28]; (void)b;
  const T h0 = *(T*)A[29]; (void)h0;
  const T h1 = *(T*)A[30]; (void)h1;
  const T h2 = *(T*)A[31]; (void)h2;
  const T* u_ = (const T*)A[32]; (void)u_;
  const T* v_ = (const T*)A[33]; (void)v_;
  const T* c_ = (const T*)A[34]; (void)c_;
  T* r_ = (T*)A[35]; (void)r_;
  T* q_ = (T*)A[36]; (void)q_;
  const auto i = Ib{lo0, hi0};
  const auto j = Jb{lo1, hi1};
  auto u = make_md_span(u_, gu, Ib{lo0 - xl0, hi0 + xh0}, Jb{lo1 - xl1, hi1 + xh1}); (void)u;
  auto v = make_md_span(v_, gv, j, i + 1); (void)v;
  auto c = make_md_span(c_, gc, i, j); (void)c;
  auto r = make_md_span(r_, gr, Jb{lo1 - yl1, hi1 + yh1}, Ib{lo0 - yl0, hi0 + yh0}); (void)r;
  auto q = make_md_span(q_, gr, Jb{lo1 - xl1, hi1 + xh1 + 1}, Ib{lo0 - xl0, hi0 + xh0}); (void)q;
  with_lhs_domain(r = u);
  }
template <class T> static void e08_27(void** A) {
  const int lo0 = *(int*)A[0]; (void)lo0;
  const int hi0 = *(int*)A[1]; (void)hi0;
  const int lo1 = *(int*)A[2]; (void)lo1;
  const int hi1 = *(int*)A[3]; (void)hi1;
  const int lo2 = *(int*)A[4]; (void)lo2;
  const int hi2 = *(int*)A[5]; (void)hi2;
  const int s0 = *(int*)A[6]; (void)s0;
  const int s1 = *(int*)A[7]; (void)s1;
  const int s2 = *(int*)A[8]; (void)s2;
  const int gu = *(int*)A[9]; (void)gu;
  const int gv = *(int*)A[10]; (void)gv;
  const int gc = *(int*)A[11]; (void)gc;
  const int gr = *(int*)A[12]; (void)gr;
  const int xl0 = *(int*)A[13]; (void)xl0;
  const int xh0 = *(int*)A[14]; (void)xh0;
  const int xl1 = *(int*)A[15]; (void)xl1;
  const int xh1 = *(int*)A[16]; (void)xh1;
  const int xl2 = *(int*)A[17]; (void)xl2;
  const int xh2 = *(int*)A[18]; (void)xh2;
  const int yl0 = *(int*)A[19]; (void)yl0;
  const int yh0 = *(int*)A[20]; (void)yh0;
  const int yl1 = *(int*)A[21]; (void)yl1;
  const int yh1 = *(int*)A[22]; (void)yh1;
  const int yl2 = *(int*)A[23]; (void)yl2;
  const int yh2 = *(int*)A[24]; (void)yh2;
  const int n1 = *(int*)A[25]; (void)n1;
  const int n2 = *(int*)A[26]; (void)n2;
  const T a = *(T*)A[27]; (void)a;
  const T b = *(T*)A[28]; (void)b;
  const T h0 = *(T*)A[29]; (void)h0;
  const T h1 = *(T*)A[30]; (void)h1;
  const T h2 = *(T*)A[31]; (void)h2;
  const T* u_ = (const T*)A[32]; (void)u_;
  const T* v_ = (const T*)A[33]; (void)v_;
  const T* c_ = (const T*)A[34]; (void)c_;
  T* r_ = (T*)A[35]; (void)r_;
  T* q_ = (T*)A[36]; (void)q_;
  const auto i = Ib{lo0, hi0};
  const auto j = Jb{lo1, hi1};
  const auto k = Kb{lo2, hi2};
  auto u = make_md_span(u_, gu, Kb{lo2 - xl2, hi2 + xh2}, Jb{lo1 - xl1, hi1 + xh1}, Ib{lo0 - xl0, hi0 + xh0}); (void)u;
  auto v = make_md_span(v_, gv, k, i, j); (void)v;
  auto c = make_md_span(c_, gc, i, k, j); (void)c;
  auto r = make_md_span(r_, gr, Jb{lo1 - yl1, hi1 + yh1}, Kb{lo2 - yl2, hi2 + yh2}, Ib{lo0 - yl0, hi0 + yh0}); (void)r;
  auto q = make_md_span(q_, gr, Ib{lo0 - xl0, hi0 + xh0}, Kb{lo2 - xl2, hi2 + xh2}, Jb{lo1 - xl1, hi1 + xh1}); (void)q;
  with_domain(k, i, j)(r = u.grad_y(h1, up));
  }
template <class T> static void e08_35(void** A) {
  const int lo0 = *(int*)A[0]; (void)lo0;
  const int hi0 = *(int*)A[1]; (void)hi0;
  const int lo1 = *(int*)A[2]; (void)lo1;
  const int hi1 = *(int*)A[3]; (void)hi1;
  const int lo2 = *(int*)A[4]; (void)lo2;
  const int hi2 = *(int*)A[5]; (void)hi2;
  const int s0 = *(int*)A[6]; (void)s0;
  const int s1 = *(int*)A[7]; (void)s1;
  const int s2 = *(int*)A[8]; (void)s2;
  const int gu = *(int*)A[9]; (void)gu;
  const int gv = *(int*)A[10]; (void)gv;
  const int gc = *(int*)A[11]; (void)gc;
  const int gr = *(int*)A[12]; (void)gr;
  const int xl0 = *(int*)A[13]; (void)xl0;
  const int xh0 = *(int*)A[14]; (void)xh0;
  const int xl1 = *(int*)A[15]; (void)xl1;
  const int xh1 = *(int*)A[16]; (void)xh1;
  const int xl2 = *(int*)A[17]; (void)xl2;
  const int xh2 = *(int*)A[18]; (void)xh2;
  const int yl0 = *(int*)A[19]; (void)yl0;
  const int yh0 = *(int*)A[20]; (void)yh0;
  const int yl1 = *(int*)A[21]; (void)yl1;
  const int yh1 = *(int*)A[22]; (void)yh1;
  const int yl2 = *(int*)A[23]; (void)yl2;
  const int yh2 = *(int*)A[24]; (void)yh2;
  const int n1 = *(int*)A[25]; (void)n1;
  const int n2 = *(int*)A[26]; (void)n2;
  const T a = *(T*)A[27]; (void)a;
  const T b = *(T*)A[28]; (void)b;
  const T h0 = *(T*)A[29]; (void)h0;
  const T h1 = *(T*)A[30]; (void)h1;
  const T h2 = *(T*)A[31]; (void)h2;
  const T* u_ = (const T*)A[32]; (void)u_;
  const T* v_ = (const T*)A[33]; (void)v_;
  const T* c_ = (const T*)A[34]; (void)c_;
  T* r_ = (T*)A[35]; (void)r_;
  T* q_ = (T*)A[36]; (void)q_;
  const auto i = Ib{lo0, hi0};
  const auto j = Jb{lo1, hi1};
  const auto k = Kb{lo2, hi2};
  auto u = make_md_span(u_, gu, Ib{lo0 - xl0, hi0 + xh0}, Kb{lo2 - xl2, hi2 + xh2 + 1}, Jb{lo1 - xl1, hi1 + xh1}); (void)u;
  auto v = make_md_span(v_, gv, i, k + 1, j); (void)v;
  auto c = make_md_span(c_, gc, j, i, k); (void)c;
  auto r = make_md_span(r_, gr, Jb{lo1 - yl1, hi1 + yh1}, Kb{lo2 - yl2, hi2 + yh2}, Ib{lo0 - yl0, hi0 + yh0}); (void)r;
  auto q = make_md_span(q_, gr, Ib{lo0 - xl0, hi0 + xh0}, Jb{lo1 - xl1, hi1 + xh1}, Kb{lo2 - xl2, hi2 + xh2}); (void)q;
  with_lhs_domain(r = ((2 + v) - (b * v.shift_y(-1))));
  }
template <class T> static void e08_43(void** A) {
  const int lo0 = *(int*)A[0]; (void)lo0;
  const int hi0 = *(int*)A[1]; (void)hi0;
  const int lo1 = *(int*)A[2]; (void)lo1;
  const int hi1 = *(int*)A[3]; (void)hi1;
  const int lo2 = *(int*)A[4]; (void)lo2;
  const int hi2 = *(int*)A[5]; (void)hi2;
  const int s0 = *(int*)A[6]; (void)s0;
  const int s1 = *(int*)A[7]; (void)s1;
  const int s2 = *(int*)A[8]; (void)s2;
  const int gu = *(int*)A[9]; (void)gu;
  const int gv = *(int*)A[10]; (void)gv;
  const int gc = *(int*)A[11]; (void)gc;
  const int gr = *(int*)A[12]; (void)gr;
  const int xl0 = *(int*)A[13]; (void)xl0;
  const int xh0 = *(int*)A[14]; (void)xh0;
  const int xl1 = *(int*)A[15]; (void)xl1;
  const int xh1 = *(int*)A[16]; (void)xh1;
  const int xl2 = *(int*)A[17]; (void)xl2;
  const int xh2 = *(int*)A[18]; (void)xh2;
  const int yl0 = *(int*)A[19]; (void)yl0;
  const int yh0 = *(int*)A[20]; (void)yh0;
  const int yl1 = *(int*)A[21]; (void)yl1;
  const int yh1 = *(int*)A[22]; (void)yh1;
  const int yl2 = *(int*)A[23]; (void)yl2;
  const int yh2 = *(int*)A[24]; (void)yh2;
  const int n1 = *(int*)A[25]; (void)n1;
  const int n2 = *(int*)A[26]; (void)n2;
  const T a = *(T*)A[27]; (void)a;
  const T b = *(T*)A[28]; (void)b;
  const T h0 = *(T*)A[29]; (void)h0;
  const T h1 = *(T*)A[30]; (void)h1;
  const T h2 = *(T*)A[31]; (void)h2;
  const T* u_ = (const T*)A[32]; (void)u_;
  const T* v_ = (const T*)A[33]; (void)v_;
  const T* c_ = (const T*)A[34]; (void)c_;
  T* r_ = (T*)A[35]; (void)r_;
  T* q_ = (T*)A[36]; (void)q_;
  const auto k = Kb{lo2, hi2};
  auto u = make_md_span(u_, gu, Kb{lo2 - xl2, hi2 + xh2}); (void)u;
  auto v = make_md_span(v_, gv, k + 1); (void)v;
  auto c = make_md_span(c_, gc, k); (void)c;
  auto r = make_md_span(r_, gr, Kb{lo2 - yl2, hi2 + yh2}); (void)r;
  auto q = make_md_span(q_, gr, Kb{lo2 - xl2, hi2 + xh2}); (void)q;
  with_lhs_domain(r = (u.shift_z() * b));
  }
template <class T> static void e08_51(void** A) {
  const int lo0 = *(int*)A[0]; (void)lo0;
  const int hi0 = *(int*)A[1]; (void)hi0;
  const int lo1 = *(int*)A[2]; (void)lo1;
  const int hi1 = *(int*)A[3]; (void)hi1;
  const int lo2 = *(int*)A[4]; (void)lo2;
  const int hi2 = *(int*)A[5]; (void)hi2;
  const int s0 = *(int*)A[6]; (void)s0;
  const int s1 = *(int*)A[7]; (void)s1;
  const int s2 = *(int*)A[8]; (void)s2;
  const int gu = *(int*)A[9]; (void)gu;
  const int gv = *(int*)A[10]; (void)gv;
  const int gc = *(int*)A[11]; (void)gc;
  const int gr = *(int*)A[12]; (void)gr;
  const int xl0 = *(int*)A[13]; (void)xl0;
  const int xh0 = *(int*)A[14]; (void)xh0;
  const int xl1 = *(int*)A[15]; (void)xl1;
  const int xh1 = *(int*)A[16]; (void)xh1;
  const int xl2 = *(int*)A[17]; (void)xl2;
  const int xh2 = *(int*)A[18]; (void)xh2;
  const int yl0 = *(int*)A[19]; (void)yl0;
  const int yh0 = *(int*)A[20]; (void)yh0;
  const int yl1 = *(int*)A[21]; (void)yl1;
  const int yh1 = *(int*)A[22]; (void)yh1;
  const int yl2 = *(int*)A[23]; (void)yl2;
  const int yh2 = *(int*)A[24]; (void)yh2;
  const int n1 = *(int*)A[25]; (void)n1;
  const int n2 = *(int*)A[26]; (void)n2;
  const T a = *(T*)A[27]; (void)a;
  const T b = *(T*)A[28]; (void)b;
  const T h0 = *(T*)A[29]; (void)h0;
  const T h1 = *(T*)A[30]; (void)h1;
  const T h2 = *(T*)A[31]; (void)h2;
  const T* u_ = (const T*)A[32]; (void)u_;
  const T* v_ = (const T*)A[33]; (void)v_;
  const T* c_ = (const T*)A[34]; (void)c_;
  T* r_ = (T*)A[35]; (void)r_;
  T* q_ = (T*)A[36]; (void)q_;
  const auto i = Ib{lo0, hi0};
  auto u = make_md_span(u_, gu, Ib{lo0 - xl0, hi0 + xh0 + 1}); (void)u;
  auto v = make_md_span(v_, gv, i); (void)v;
  auto c = make_md_span(c_, gc, i + 1); (void)c;
  auto r = make_md_span(r_, gr, Ib{lo0 - yl0, hi0 + yh0 + 1}); (void)r;
  auto q = make_md_span(q_, gr, Ib{lo0 - xl0, hi0 + xh0}); (void)q;
  with_domain(i)(r = (2 / (c + 2)), q = 3 * r.shift_x(1) + (v.shift_x(2) + v.grad_x(h0, down)), r = a * q.shift_x(1) + (3 - c));
  }
template <class T> static void e08_59(void** A) {
  const int lo0 = *(int*)A[0]; (void)lo0;
  const int hi0 = *(int*)A[1]; (void)hi0;
  const int lo1 = *(int*)A[2]; (void)lo1;
  const int hi1 = *(int*)A[3]; (void)hi1;
  const int lo2 = *(int*)A[4]; (void)lo2;
  const int hi2 = *(int*)A[5]; (void)hi2;
  const int s0 = *(int*)A[6]; (void)s0;
  const int s1 = *(int*)A[7]; (void)s1;
  const int s2 = *(int*)A[8]; (void)s2;
  const int gu = *(int*)A[9]; (void)gu;
  const int gv = *(int*)A[10]; (void)gv;
  const int gc = *(int*)A[11]; (void)gc;
  const int gr = *(int*)A[12]; (void)gr;
  const int xl0 = *(int*)A[13]; (void)xl0;
  const int xh0 = *(int*)A[14]; (void)xh0;
  const int xl1 = *(int*)A[15]; (void)xl1;
  const int xh1 = *(int*)A[16]; (void)xh1;
  const int xl2 = *(int*)A[17]; (void)xl2;
  const int xh2 = *(int*)A[18]; (void)xh2;
  const int yl0 = *(int*)A[19]; (void)yl0;
  const int yh0 = *(int*)A[20]; (void)yh0;
  const int yl1 = *(int*)A[21]; (void)yl1;
  const int yh1 = *(int*)A[22]; (void)yh1;
  const int yl2 = *(int*)A[23]; (void)yl2;
  const int yh2 = *(int*)A[24]; (void)yh2;
  const int n1 = *(int*)A[25]; (void)n1;
  const int n2 = *(int*)A[26]; (void)n2;
  const T a = *(T*)A[27]; (void)a;
  const T b = *(T*)A[28]; (void)b;
  const T h0 = *(T*)A[29]; (void)h0;
  const T h1 = *(T*)A[30]; (void)h1;
  const T h2 = *(T*)A[31]; (void)h2;
  const T* u_ = (const T*)A[32]; (void)u_;
  const T* v_ = (const T*)A[33]; (void)v_;
  const T* c_ = (const T*)A[34]; (void)c_;
  T* r_ = (T*)A[35]; (void)r_;
  T* q_ = (T*)A[36]; (void)q_;
  const auto i = Ib{lo0, hi0};
  const auto j = Jb{lo1, hi1};
  auto u = make_md_span(u_, gu, Jb{lo1 - xl1, hi1 + xh1}, Ib{lo0 - xl0, hi0 + xh0}); (void)u;
  auto v = make_md_span(v_, gv, i, j); (void)v;
  auto c = make_md_span(c_, gc, j, i); (void)c;
  auto r = make_md_span(r_, gr, Jb{lo1 - yl1, hi1 + yh1}, Ib{lo0 - yl0, hi0 + yh0}); (void)r;
  auto q = make_md_span(q_, gr, Ib{lo0 - xl0, hi0 + xh0}, Jb{lo1 - xl1, hi1 + xh1}); (void)q;
  with_domain(i, j)(r = c);
  }
template <class T> static void e08_s01(void** A) {
  const int lo0 = *(int*)A[0]; (void)lo0;
  const int hi0 = *(int*)A[1]; (void)hi0;
  const int lo1 = *(int*)A[2]; (void)lo1;
  const int hi1 = *(int*)A[3]; (void)hi1;
  const int lo2 = *(int*)A[4]; (void)lo2;
  const int hi2 = *(int*)A[5]; (void)hi2;
  const int s0 = *(int*)A[6]; (void)s0;
  const int s1 = *(int*)A[7]; (void)s1;
  const int s2 = *(int*)A[8]; (void)s2;
  const int gu = *(int*)A[9]; (void)gu;
  const int gv = *(int*)A[10]; (void)gv;
  const int gc = *(int*)A[11]; (void)gc;
  const int gr = *(int*)A[12]; (void)gr;
  const int xl0 = *(int*)A[13]; (void)xl0;
  const int xh0 = *(int*)A[14]; (void)xh0;
  const int xl1 = *(int*)A[15]; (void)xl1;
  const int xh1 = *(int*)A[16]; (void)xh1;
  const int xl2 = *(int*)A[17]; (void)xl2;
  const int xh2 = *(int*)A[18]; (void)xh2;
  const int yl0 = *(int*)A[19]; (void)yl0;
  const int yh0 = *(int*)A[20]; (void)yh0;
  const int yl1 = *(int*)A[21]; (void)yl1;
  const int yh1 = *(int*)A[22]; (void)yh1;
  const int yl2 = *(int*)A[23]; (void)yl2;
  const int yh2 = *(int*)A[24]; (void)yh2;
  const int n1 = *(int*)A[25]; (void)n1;
  const int n2 = *(int*)A[26]; (void)n2;
  const T a = *(T*)A[27]; (void)a;
  const T b = *(T*)A[28]; (void)b;
  const T h0 = *(T*)A[29]; (void)h0;
  const T h1 = *(T*)A[30]; (void)h1;
  const T h2 = *(T*)A[31]; (void)h2;
  const T* u_ = (const T*)A[32]; (void)u_;
  const T* v_ = (const T*)A[33]; (void)v_;
  const T* c_ = (const T*)A[34]; (void)c_;
  T* r_ = (T*)A[35]; (void)r_;
  T* q_ = (T*)A[36]; (void)q_;
  const auto i = Ib{lo0, hi0};
  const auto j = Jb{lo1, hi1};
  auto u = make_md_span(u_, gu, Ib{lo0 - xl0, hi0 + xh0}, Jb{lo1 - xl1, hi1 + xh1}); (void)u;
  auto v = make_md_span(v_, gv, i, j); (void)v;
  auto c = make_md_span(c_, gc, j, i); (void)c;
  auto r = make_md_span(r_, gr, Jb{lo1 - yl1, hi1 + yh1}, Ib{lo0 - yl0, hi0 + yh0}); (void)r;
  auto q = make_md_span(q_, gr, Ib{lo0 - xl0, hi0 + xh0}, Jb{lo1 - xl1, hi1 + xh1}); (void)q;
  with_domain(i, j)(q = u.grad_x(h0, down), r = v.shift_xy(n1, n2) + c.grad_y(h1, up));
  }
template <class T> static void e08_s09(void** A) {
  const int lo0 = *(int*)A[0]; (void)lo0;
  const int hi0 = *(int*)A[1]; (void)hi0;
  const int lo1 = *(int*)A[2]; (void)lo1;
  const int hi1 = *(int*)A[3]; (void)hi1;
  const int lo2 = *(int*)A[4]; (void)lo2;
  const int hi2 = *(int*)A[5]; (void)hi2;
  const int s0 = *(int*)A[6]; (void)s0;
  const int s1 = *(int*)A[7]; (void)s1;
  const int s2 = *(int*)A[8]; (void)s2;
  const int gu = *(int*)A[9]; (void)gu;
  const int gv = *(int*)A[10]; (void)gv;
  const int gc = *(int*)A[11]; (void)gc;
  const int gr = *(int*)A[12]; (void)gr;
  const int xl0 = *(int*)A[13]; (void)xl0;
  const int xh0 = *(int*)A[14]; (void)xh0;
  const int xl1 = *(int*)A[15]; (void)xl1;
  const int xh1 = *(int*)A[16]; (void)xh1;
  const int xl2 = *(int*)A[17]; (void)xl2;
  const int xh2 = *(int*)A[18]; (void)xh2;
  const int yl0 = *(int*)A[19]; (void)yl0;
  const int yh0 = *(int*)A[20]; (void)yh0;
  const int yl1 = *(int*)A[21]; (void)yl1;
  const int yh1 = *(int*)A[22]; (void)yh1;
  const int yl2 = *(int*)A[23]; (void)yl2;
  const int yh2 = *(int*)A[24]; (void)yh2;
  const int n1 = *(int*)A[25]; (void)n1;
  const int n2 = *(int*)A[26]; (void)n2;
  const T a = *(T*)A[27]; (void)a;
  const T b = *(T*)A[28]; (void)b;
  const T h0 = *(T*)A[29]; (void)h0;
  const T h1 = *(T*)A[30]; (void)h1;
  const T h2 = *(T*)A[31]; (void)h2;
  const T* u_ = (const T*)A[32]; (void)u_;
  const T* v_ = (const T*)A[33]; (void)v_;
  const T* c_ = (const T*)A[34]; (void)c_;
  T* r_ = (T*)A[35]; (void)r_;
  T* q_ = (T*)A[36]; (void)q_;
  const auto i = Ib{lo0 + 2, hi0} + -2;
  const auto j = Jb{lo1, hi1 + 1, 1, false};
  const auto k = Kb{lo2, hi2, 3}.unit_stride();
  auto u = make_md_span(u_, gu, Kb{lo2 - xl2, hi2 + xh2}, Jb{lo1 - xl1, hi1 + xh1}, Ib{lo0 - xl0, hi0 + xh0}); (void)u;
  auto v = make_md_span(v_, gv, k, i, j); (void)v;
  auto c = make_md_span(c_, gc, j, i, k); (void)c;
  auto r = make_md_span(r_, gr, Jb{lo1 - yl1, hi1 + yh1}, Ib{lo0 - yl0, hi0 + yh0}, Kb{lo2 - yl2, hi2 + yh2}); (void)r;
  auto q = make_md_span(q_, gr, Jb{lo1 - xl1, hi1 + xh1}, Kb{lo2 - xl2, hi2 + xh2}, Ib{lo0 - xl0, hi0 + xh0}); (void)q;
  with_domain(j, k, i)(r = b * u.grad_z(h2, up) + b * v.shift_z(n1) + 1.5 * c.grad_x(h0));
  }
template <class T> static void e08_s17(void** A) {
  const int lo0 = *(int*)A[0]; (void)lo0;
  const int hi0 = *(int*)A[1]; (void)hi0;
  const int lo1 = *(int*)A[2]; (void)lo1;
  const int hi1 = *(int*)A[3]; (void)hi1;
  const int lo2 = *(int*)A[4]; (void)lo2;
  const int hi2 = *(int*)A[5]; (void)hi2;
  const int s0 = *(int*)A[6]; (void)s0;
  const int s1 = *(int*)A[7]; (void)s1;
  const int s2 = *(int*)A[8]; (void)s2;
  const int gu = *(int*)A[9]; (void)gu;
  const int gv = *(int*)A[10]; (void)gv;
  const int gc = *(int*)A[11]; (void)gc;
  const int gr = *(int*)A[12]; (void)gr;
  const int xl0 = *(int*)A[13]; (void)xl0;
  const int xh0 = *(int*)A[14]; (void)xh0;
  const int xl1 = *(int*)A[15]; (void)xl1;
  const int xh1 = *(int*)A[16]; (void)xh1;
  const int xl2 = *(int*)A[17]; (void)xl2;
  const int xh2 = *(int*)A[18]; (void)xh2;
  const int yl0 = *(int*)A[19]; (void)yl0;
  const int yh0 = *(int*)A[20]; (void)yh0;
  const int yl1 = *(int*)A[21]; (void)yl1;
  const int yh1 = *(int*)A[22]; (void)yh1;
  const int yl2 = *(int*)A[23]; (void)yl2;
  const int yh2 = *(int*)A[24]; (void)yh2;
  const int n1 = *(int*)A[25]; (void)n1;
  const int n2 = *(int*)A[26]; (void)n2;
  const T a = *(T*)A[27]; (void)a;
  const T b = *(T*)A[28]; (void)b;
  const T h0 = *(T*)A[29]; (void)h0;
  const T h1 = *(T*)A[30]; (void)h1;
  const T h2 = *(T*)A[31]; (void)h2;
  const T* u_ = (const T*)A[32]; (void)u_;
  const T* v_ = (const T*)A[33]; (void)v_;
  const T* c_ = (const T*)A[34]; (void)c_;
  T* r_ = (T*)A[35]; (void)r_;
  T* q_ = (T*)A[36]; (void)q_;
  const auto i = Ib{lo0, hi0, 3}.unit_stride();
  const auto j = Jb{lo1 - n1, hi1 - n1}.shift(n1);
  const auto k = (Kb{lo2 + 2, hi2 - 3} - 2) + 3;
  auto u = make_md_span(u_, gu, Ib{lo0 - xl0, hi0 + xh0}, Jb{lo1 - xl1, hi1 + xh1}, Kb{lo2 - xl2, hi2 + xh2}); (void)u;
  auto v = make_md_span(v_, gv, j, i, k); (void)v;
  auto c = make_md_span(c_, gc, i, j, k); (void)c;
  auto r = make_md_span(r_, gr, Kb{lo2 - yl2, hi2 + yh2}, Jb{lo1 - yl1, hi1 + yh1}, Ib{lo0 - yl0, hi0 + yh0}); (void)r;
  auto q = make_md_span(q_, gr, Ib{lo0 - xl0, hi0 + xh0}, Kb{lo2 - xl2, hi2 + xh2}, Jb{lo1 - xl1, hi1 + xh1}); (void)q;
  with_domain(j, i, k)(q = u.shift_xy(n1, n2), r = v.grad_z(h2, up) + c.shift_yz());
  }
template <class T> static void e08_s25(void** A) {
  const int lo0 = *(int*)A[0]; (void)lo0;
  const int hi0 = *(int*)A[1]; (void)hi0;
  const int lo1 = *(int*)A[2]; (void)lo1;
  const int hi1 = *(int*)A[3]; (void)hi1;
  const int lo2 = *(int*)A[4]; (void)lo2;
  const int hi2 = *(int*)A[5]; (void)hi2;
  const int s0 = *(int*)A[6]; (void)s0;
  const int s1 = *(int*)A[7]; (void)s1;
  const int s2 = *(int*)A[8]; (void)s2;
  const int gu = *(int*)A[9]; (void)gu;
  const int gv = *(int*)A[10]; (void)gv;
  const int gc = *(int*)A[11]; (void)gc;
  const int gr = *(int*)A[12]; (void)gr;
  const int xl0 = *(int*)A[13]; (void)xl0;
  const int xh0 = *(int*)A[14]; (void)xh0;
  const int xl1 = *(int*)A[15]; (void)xl1;
  const int xh1 = *(int*)A[16]; (void)xh1;
  const int xl2 = *(int*)A[17]; (void)xl2;
  const int xh2 = *(int*)A[18]; (void)xh2;
  const int yl0 = *(int*)A[19]; (void)yl0;
  const int yh0 = *(int*)A[20]; (void)yh0;
  const int yl1 = *(int*)A[21]; (void)yl1;
  const int yh1 = *(int*)A[22]; (void)yh1;
  const int yl2 = *(int*)A[23]; (void)yl2;
  const int yh2 = *(int*)A[24]; (void)yh2;
  const int n1 = *(int*)A[25]; (void)n1;
  const int n2 = *(int*)A[26]; (void)n2;
  const T a = *(T*)A[27]; (void)a;
  const T b = *(T*)A[28]; (void)b;
  const T h0 = *(T*)A[29]; (void)h0;
  const T h1 = *(T*)A[30]; (void)h1;
  const T h2 = *(T*)A[31]; (void)h2;
  const T* u_ = (const T*)A[32]; (void)u_;
  const T* v_ = (const T*)A[33]; (void)v_;
  const T* c_ = (const T*)A[34]; (void)c_;
  T* r_ = (T*)A[35]; (void)r_;
  T* q_ = (T*)A[36]; (void)q_;
  const auto i = (Ib{lo0 + 2, hi0 - 3} - 2) + 3;
  const auto j = Jb{lo1 + 1, hi1 - 1}.expand(1);
  const auto k = Kb{lo2 + 2, hi2} + -2;
  auto u = make_md_span(u_, gu, Kb{lo2 - xl2, hi2 + xh2}, Jb{lo1 - xl1, hi1 + xh1}, Ib{lo0 - xl0, hi0 + xh0}); (void)u;
  auto v = make_md_span(v_, gv, j, i, k); (void)v;
  auto c = make_md_span(c_, gc, i, j, k); (void)c;
  auto r = make_md_span(r_, gr, Ib{lo0 - yl0, hi0 + yh0}, Jb{lo1 - yl1, hi1 + yh1}, Kb{lo2 - yl2, hi2 + yh2}); (void)r;
  auto q = make_md_span(q_, gr, Ib{lo0 - xl0, hi0 + xh0}, Kb{lo2 - xl2, hi2 + xh2}, Jb{lo1 - xl1, hi1 + xh1}); (void)q;
  with_domain(k, j, i)(r = 3 * u.shift_xz() + -1 * v.shift_xz() + a * c.grad_y(h1, up));
  }
template <class T> static void e08_s33(void** A) {
  const int lo0 = *(int*)A[0]; (void)lo0;
  const int hi0 = *(int*)A[1]; (void)hi0;
  const int lo1 = *(int*)A[2]; (void)lo1;
  const int hi1 = *(int*)A[3]; (void)hi1;
  const int lo2 = *(int*)A[4]; (void)lo2;
  const int hi2 = *(int*)A[5]; (void)hi2;
  const int s0 = *(int*)A[6]; (void)s0;
  const int s1 = *(int*)A[7]; (void)s1;
  const int s2 = *(int*)A[8]; (void)s2;
  const int gu = *(int*)A[9]; (void)gu;
  const int gv = *(int*)A[10]; (void)gv;
  const int gc = *(int*)A[11]; (void)gc;
  const int gr = *(int*)A[12]; (void)gr;
  const int xl0 = *(int*)A[13]; (void)xl0;
  const int xh0 = *(int*)A[14]; (void)xh0;
  const int xl1 = *(int*)A[15]; (void)xl1;
  const int xh1 = *(int*)A[16]; (void)xh1;
  const int xl2 = *(int*)A[17]; (void)xl2;
  const int xh2 = *(int*)A[18]; (void)xh2;
  const int yl0 = *(int*)A[19]; (void)yl0;
  const int yh0 = *(int*)A[20]; (void)yh0;
  const int yl1 = *(int*)A[21]; (void)yl1;
  const int yh1 = *(int*)A[22]; (void)yh1;
  const int yl2 = *(int*)A[23]; (void)yl2;
  const int yh2 = *(int*)A[24]; (void)yh2;
  const int n1 = *(int*)A[25]; (void)n1;
  const int n2 = *(int*)A[26]; (void)n2;
  const T a = *(T*)A[27]; (void)a;
  const T b = *(T*)A[28]; (void)b;
  const T h0 = *(T*)A[29]; (void)h0;
  const T h1 = *(T*)A[30]; (void)h1;
  const T h2 = *(T*)A[31]; (void)h2;
  const T* u_ = (const T*)A[32]; (void)u_;
  const T* v_ = (const T*)A[33]; (void)v_;
  const T* c_ = (const T*)A[34]; (void)c_;
  T* r_ = (T*)A[35]; (void)r_;
  T* q_ = (T*)A[36]; (void)q_;
  const auto i = Ib{lo0 + 2, hi0} + -2;
  const auto j = Jb{lo1, hi1 + 1, 1, false};
  const auto k = Kb{lo2, hi2, 3}.unit_stride();
  auto u = make_md_span(u_, gu, Jb{lo1 - xl1, hi1 + xh1}, Kb{lo2 - xl2, hi2 + xh2}, Ib{lo0 - xl0, hi0 + xh0}); (void)u;
  auto v = make_md_span(v_, gv, i, k, j); (void)v;
  auto c = make_md_span(c_, gc, k, i, j); (void)c;
  auto r = make_md_span(r_, gr, Ib{lo0 - yl0, hi0 + yh0}, Kb{lo2 - yl2, hi2 + yh2}, Jb{lo1 - yl1, hi1 + yh1}); (void)r;
  auto q = make_md_span(q_, gr, Ib{lo0 - xl0, hi0 + xh0}, Jb{lo1 - xl1, hi1 + xh1}, Kb{lo2 - xl2, hi2 + xh2}); (void)q;
  auto e = b * u.grad_y(h1, down) + b * v.grad_z(h2) + 1.5 * c.shift_yz(n1, n2);
  with_domain(k, i, j)(r = e, q = e - a);
  }
template <class T> static void e08_s41(void** A) {
  const int lo0 = *(int*)A[0]; (void)lo0;
  const int hi0 = *(int*)A[1]; (void)hi0;
  const int lo1 = *(int*)A[2]; (void)lo1;
  const int hi1 = *(int*)A[3]; (void)hi1;
  const int lo2 = *(int*)A[4]; (void)lo2;
  const int hi2 = *(int*)A[5]; (void)hi2;
  const int s0 = *(int*)A[6]; (void)s0;
  const int s1 = *(int*)A[7]; (void)s1;
  const int s2 = *(int*)A[8]; (void)s2;
  const int gu = *(int*)A[9]; (void)gu;
  const int gv = *(int*)A[10]; (void)gv;
  const int gc = *(int*)A[11]; (void)gc;
  const int gr = *(int*)A[12]; (void)gr;
  const int xl0 = *(int*)A[13]; (void)xl0;
  const int xh0 = *(int*)A[14]; (void)xh0;
  const int xl1 = *(int*)A[15]; (void)xl1;
  const int xh1 = *(int*)A[16]; (void)xh1;
  const int xl2 = *(int*)A[17]; (void)xl2;
  const int xh2 = *(int*)A[18]; (void)xh2;
  const int yl0 = *(int*)A[19]; (void)yl0;
  const int yh0 = *(int*)A[20]; (void)yh0;
  const int yl1 = *(int*)A[21]; (void)yl1;
  const int yh1 = *(int*)A[22]; (void)yh1;
  const int yl2 = *(int*)A[23]; (void)yl2;
  const int yh2 = *(int*)A[24]; (void)yh2;
  const int n1 = *(int*)A[25]; (void)n1;
  const int n2 = *(int*)A[26]; (void)n2;
  const T a = *(T*)A[27]; (void)a;
  const T b = *(T*)A[28]; (void)b;
  const T h0 = *(T*)A[29]; (void)h0;
  const T h1 = *(T*)A[30]; (void)h1;
  const T h2 = *(T*)A[31]; (void)h2;
  const T* u_ = (const T*)A[32]; (void)u_;
  const T* v_ = (const T*)A[33]; (void)v_;
  const T* c_ = (const T*)A[34]; (void)c_;
  T* r_ = (T*)A[35]; (void)r_;
  T* q_ = (T*)A[36]; (void)q_;
  const auto i = Ib{lo0, hi0};
  const auto j = Jb{lo1, hi1};
  const auto k = Kb{lo2, hi2};
  auto u = make_md_span(u_, gu, Ib{lo0 - xl0, hi0 + xh0 + 1}, Kb{lo2 - xl2, hi2 + xh2}, Jb{lo1 - xl1, hi1 + xh1}); (void)u;
  auto v = make_md_span(v_, gv, j, k, i); (void)v;
  auto c = make_md_span(c_, gc, j, i, k); (void)c;
  auto r = make_md_span(r_, gr, Ib{lo0 - yl0, hi0 + yh0}, Jb{lo1 - yl1, hi1 + yh1}, Kb{lo2 - yl2, hi2 + yh2}); (void)r;
  auto q = make_md_span(q_, gr, Jb{lo1 - xl1, hi1 + xh1}, Ib{lo0 - xl0, hi0 + xh0}, Kb{lo2 - xl2, hi2 + xh2}); (void)q;
  with_domain(i, k, j)(r = T(0.5) * u.grad_y(h1, down) + T(0.5) * v.shift_xz(n1, n2) + a * c.grad_z(h2));
  }
template <class T> static void e08_s49(void** A) {
  const int lo0 = *(int*)A[0]; (void)lo0;
  const int hi0 = *(int*)A[1]; (void)hi0;
  const int lo1 = *(int*)A[2]; (void)lo1;
  const int hi1 = *(int*)A[3]; (void)hi1;
  const int lo2 = *(int*)A[4]; (void)lo2;
  const int hi2 = *(int*)A[5]; (void)hi2;
  const int s0 = *(int*)A[6]; (void)s0;
  const int s1 = *(int*)A[7]; (void)s1;
  const int s2 = *(int*)A[8]; (void)s2;
  const int gu = *(int*)A[9]; (void)gu;
  const int gv = *(int*)A[10]; (void)gv;
  const int gc = *(int*)A[11]; (void)gc;
  const int gr = *(int*)A[12]; (void)gr;
  const int xl0 = *(int*)A[13]; (void)xl0;
  const int xh0 = *(int*)A[14]; (void)xh0;
  const int xl1 = *(int*)A[15]; (void)xl1;
  const int xh1 = *(int*)A[16]; (void)xh1;
  const int xl2 = *(int*)A[17]; (void)xl2;
  const int xh2 = *(int*)A[18]; (void)xh2;
  const int yl0 = *(int*)A[19]; (void)yl0;
  const int yh0 = *(int*)A[20]; (void)yh0;
  const int yl1 = *(int*)A[21]; (void)yl1;
  const int yh1 = *(int*)A[22]; (void)yh1;
  const int yl2 = *(int*)A[23]; (void)yl2;
  const int yh2 = *(int*)A[24]; (void)yh2;
  const int n1 = *(int*)A[25]; (void)n1;
  const int n2 = *(int*)A[26]; (void)n2;
  const T a = *(T*)A[27]; (void)a;
  const T b = *(T*)A[28]; (void)b;
  const T h0 = *(T*)A[29]; (void)h0;
  const T h1 = *(T*)A[30]; (void)h1;
  const T h2 = *(T*)A[31]; (void)h2;
  const T* u_ = (const T*)A[32]; (void)u_;
  const T* v_ = (const T*)A[33]; (void)v_;
  const T* c_ = (const T*)A[34]; (void)c_;
  T* r_ = (T*)A[35]; (void)r_;
  T* q_ = (T*)A[36]; (void)q_;
  const auto i = (Ib{lo0 + 2, hi0 - 3} - 2) + 3;
  const auto k = Kb{lo2 + 2, hi2} + -2;
  auto u = make_md_span(u_, gu, Ib{lo0 - xl0, hi0 + xh0}, Kb{lo2 - xl2, hi2 + xh2}); (void)u;
  auto v = make_md_span(v_, gv, k, i); (void)v;
  auto c = make_md_span(c_, gc, i, k); (void)c;
  auto r = make_md_span(r_, gr, Kb{lo2 - yl2, hi2 + yh2}, Ib{lo0 - yl0, hi0 + yh0}); (void)r;
  auto q = make_md_span(q_, gr, Kb{lo2 - xl2, hi2 + xh2}, Ib{lo0 - xl0, hi0 + xh0}); (void)q;
  with_domain(i, k)(q = u.shift_z(n1), r = v.grad_x(h0, up));
  }
template <class T> static void e08_s57(void** A) {
  const int lo0 = *(int*)A[0]; (void)lo0;
  const int hi0 = *(int*)A[1]; (void)hi0;
  const int lo1 = *(int*)A[2]; (void)lo1;
  const int hi1 = *(int*)A[3]; (void)hi1;
  const int lo2 = *(int*)A[4]; (void)lo2;
  const int hi2 = *(int*)A[5]; (void)hi2;
  const int s0 = *(int*)A[6]; (void)s0;
  const int s1 = *(int*)A[7]; (void)s1;
  const int s2 = *(int*)A[8]; (void)s2;
  const int gu = *(int*)A[9]; (void)gu;
  const int gv = *(int*)A[10]; (void)gv;
  const int gc = *(int*)A[11]; (void)gc;
  const int gr = *(int*)A[12]; (void)gr;
  const int xl0 = *(int*)A[13]; (void)xl0;
  const int xh0 = *(int*)A[14]; (void)xh0;
  const int xl1 = *(int*)A[15]; (void)xl1;
  const int xh1 = *(int*)A[16]; (void)xh1;
  const int xl2 = *(int*)A[17]; (void)xl2;
  const int xh2 = *(int*)A[18]; (void)xh2;
  const int yl0 = *(int*)A[19]; (void)yl0;
  const int yh0 = *(int*)A[20]; (void)yh0;
  const int yl1 = *(int*)A[21]; (void)yl1;
  const int yh1 = *(int*)A[22]; (void)yh1;
  const int yl2 = *(int*)A[23]; (void)yl2;
  const int yh2 = *(int*)A[24]; (void)yh2;
  const int n1 = *(int*)A[25]; (void)n1;
  const int n2 = *(int*)A[26]; (void)n2;
  const T a = *(T*)A[27]; (void)a;
  const T b = *(T*)A[28]; (void)b;
  const T h0 = *(T*)A[29]; (void)h0;
  const T h1 = *(T*)A[30]; (void)h1;
  const T h2 = *(T*)A[31]; (void)h2;
  const T* u_ = (const T*)A[32]; (void)u_;
  const T* v_ = (const T*)A[33]; (void)v_;
  const T* c_ = (const T*)A[34]; (void)c_;
  T* r_ = (T*)A[35]; (void)r_;
  T* q_ = (T*)A[36]; (void)q_;
  const auto i = Ib{lo0 + 2, hi0} + -2;
  auto u = make_md_span(u_, gu, Ib{lo0 - xl0, hi0 + xh0 + 1}); (void)u;
  auto v = make_md_span(v_, gv, i + 1); (void)v;
  auto c = make_md_span(c_, gc, i); (void)c;
  auto r = make_md_span(r_, gr, Ib{lo0 - yl0, hi0 + yh0}); (void)r;
  auto q = make_md_span(q_, gr, Ib{lo0 - xl0, hi0 + xh0}); (void)q;
  with_domain(i)(r = a * u.grad_x(h0) + a * v.shift_x(n1) + T(0.5) * c.grad_x(h0, down));
  }
template <class T> static void e08_f04(void** A) {
  const int lo0 = *(int*)A[0]; (void)lo0;
  const int hi0 = *(int*)A[1]; (void)hi0;
  const int lo1 = *(int*)A[2]; (void)lo1;
  const int hi1 = *(int*)A[3]; (void)hi1;
  const int lo2 = *(int*)A[4]; (void)lo2;
  const int hi2 = *(int*)A[5]; (void)hi2;
  const int s0 = *(int*)A[6]; (void)s0;
  const int s1 = *(int*)A[7]; (void)s1;
  const int s2 = *(int*)A[8]; (void)s2;
  const int gu = *(int*)A[9]; (void)gu;
  const int gv = *(int*)A[10]; (void)gv;
  const int gc = *(int*)A[11]; (void)gc;
  const int gr = *(int*)A[12]; (void)gr;
  const int xl0 = *(int*)A[13]; (void)xl0;
  const int xh0 = *(int*)A[14]; (void)xh0;
  const int xl1 = *(int*)A[15]; (void)xl1;
  const int xh1 = *(int*)A[16]; (void)xh1;
  const int xl2 = *(int*)A[17]; (void)xl2;
  const int xh2 = *(int*)A[18]; (void)xh2;
  const int yl0 = *(int*)A[19]; (void)yl0;
  const int yh0 = *(int*)A[20]; (void)yh0;
  const int yl1 = *(int*)A[21]; (void)yl1;
  const int yh1 = *(int*)A[22]; (void)yh1;
  const int yl2 = *(int*)A[23]; (void)yl2;
  const int yh2 = *(int*)A[24]; (void)yh2;
  const int n1 = *(int*)A[25]; (void)n1;
  const int n2 = *(int*)A[26]; (void)n2;
  const T a = *(T*)A[27]; (void)a;
  const T b = *(T*)A[28]; (void)b;
  const T h0 = *(T*)A[29]; (void)h0;
  const T h1 = *(T*)A[30]; (void)h1;
  const T h2 = *(T*)A[31]; (void)h2;
  const T* u_ = (const T*)A[32]; (void)u_;
  const T* v_ = (const T*)A[33]; (void)v_;
  const T* c_ = (const T*)A[34]; (void)c_;
  T* r_ = (T*)A[35]; (void)r_;
  T* q_ = (T*)A[36]; (void)q_;
  const auto j = Jb{lo1, hi1};
  const auto k = Kb{lo2, hi2};
  const int rt = 2 + (n1 < 0 ? -n1 : n1), st = (n2 < 0 ? -n2 : n2) % rt;
  auto u = make_md_span(u_, gu, Kb{lo2 - xl2, hi2 + xh2}, Jb{lo1 - xl1, hi1 + xh1}); (void)u;
  auto v = make_md_span(v_, gv, k, j); (void)v;
  auto c = make_md_span(c_, gc, j, k); (void)c;
  auto r = make_md_span(r_, gr, j, Kb{lo2 * rt, hi2 * rt + rt - 1}); (void)r;
  auto q = make_md_span(q_, gr, Kb{lo2 * rt, hi2 * rt + rt - 1}, j); (void)q;
  with_domain(Jb{lo1, lo1}, Kb{lo2 * rt + st, hi2 * rt + rt - 1})(r = u.fine(rt, Jb{hi1, hi1}));
  with_domain(Jb{hi1, hi1}, Kb{lo2 * rt + st, hi2 * rt + rt - 1})(q = v.fine(rt, Jb{lo1, lo1}));
  r.at(lo1, lo2 * rt) = c.at(hi1, hi2);
  }
struct Reg { Reg() {
  sim_register_harness("e08_03", 0, 0, e08_03<double>); sim_register_harness("e08_03", 1, 0, e08_03<float>);
  sim_register_harness("e08_11", 0, 0, e08_11<double>); sim_register_harness("e08_11", 1, 0, e08_11<float>);
  sim_register_harness("e08_19", 0, 0, e08_19<double>); sim_register_harness("e08_19", 1, 0, e08_19<float>);
  sim_register_harness("e08_27", 0, 0, e08_27<double>); sim_register_harness("e08_27", 1, 0, e08_27<float>);
  sim_register_harness("e08_35", 0, 0, e08_35<double>); sim_register_harness("e08_35", 1, 0, e08_35<float>);
  sim_register_harness("e08_43", 0, 0, e08_43<double>); sim_register_harness("e08_43", 1, 0, e08_43<float>);
  sim_register_harness("e08_51", 0, 0, e08_51<double>); sim_register_harness("e08_51", 1, 0, e08_51<float>);
  sim_register_harness("e08_59", 0, 0, e08_59<double>); sim_register_harness("e08_59", 1, 0, e08_59<float>);
  sim_register_harness("e08_s01", 0, 0, e08_s01<double>); sim_register_harness("e08_s01", 1, 0, e08_s01<float>);
  sim_register_harness("e08_s09", 0, 0, e08_s09<double>); sim_register_harness("e08_s09", 1, 0, e08_s09<float>);
  sim_register_harness("e08_s17", 0, 0, e08_s17<double>); sim_register_harness("e08_s17", 1, 0, e08_s17<float>);
  sim_register_harness("e08_s25", 0, 0, e08_s25<double>); sim_register_harness("e08_s25", 1, 0, e08_s25<float>);
  sim_register_harness("e08_s33", 0, 0, e08_s33<double>); sim_register_harness("e08_s33", 1, 0, e08_s33<float>);
  sim_register_harness("e08_s41", 0, 0, e08_s41<double>); sim_register_harness("e08_s41", 1, 0, e08_s41<float>);
  sim_register_harness("e08_s49", 0, 0, e08_s49<double>); sim_register_harness("e08_s49", 1, 0, e08_s49<float>);
  sim_register_harness("e08_s57", 0, 0, e08_s57<double>); sim_register_harness("e08_s57", 1, 0, e08_s57<float>);
  sim_register_harness("e08_f04", 0, 0, e08_f04<double>); sim_register_harness("e08_f04", 1, 0, e08_f04<float>);
} } reg;
}
