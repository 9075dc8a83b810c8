// generated by tools/gen_h.py
#include "md_device_span.hpp"
extern "C" void sim_register_harness(const char*, int, int, void (*)(void**));
namespace {
template <class T> static void e08_02(void** A) {
  const int lo0 = *(int*)A[0]; (void)lo0;
  const int hi0 = *(int*)A[1]; (void)hi0;
  const int lo1 = *(int*)A[2]; (void)lo1;
  const int hi1 = *(int*)A[3]; (void)hi1;
  const int lo2 = *(int*)A[4]; (void)lo2;
  const int hi2 = *(int*)A[5]; (void)hi2;
  const int s0 = *(int*)A[6]; (void)s0;
  const int s1 = *(int*)A[7]; (void)s1;
  const int s2 = *(int*)A[8]; (void)s2;
  const int gu = *(int*)A[9]; (void)gu;
  const int gv = *(int*)A[10]; (void)gv;
  const int gc = *(int*)A[11]; (void)gc;
  const int gr = *(int*)A[12]; (void)gr;
  const int xl0 = *(int*)A[13]; (void)xl0;
  const int xh0 = *(int*)A[14]; (void)xh0;
  const int xl1 = *(int*)A[15]; (void)xl1;
  const int xh1 = *(int*)A[16]; (void)xh1;
  const int xl2 = *(int*)A[17]; (void)xl2;
  const int xh2 = *(int*)A[18]; (void)xh2;
  const int yl0 = *(int*)A[19]; (void)yl0;
  const int yh0 = *(int*)A[20]; (void)yh0;
  const int yl1 = *(int*)A[21]; (void)yl1;
  const int yh1 = *(int*)A[22]; (void)yh1;
  const int yl2 = *(int*)A[23]; (void)yl2;
  const int yh2 = *(int*)A[24]; (void)yh2;
  const int n1 = *(int*)A[25]; (void)n1;
  const int n2 = *(int*)A[26]; (void)n2;
  const T a = *(T*)A[27]; (void)a;
  const T b = *(T*)A[28]; (void)b;
  const T h0 = *(T*)A[29]; (void)h0;
  const T h1 = *(T*)A[30]; (void)h1;
  const T h2 = *(T*)A[31]; (void)h2;
  T* u_ = (T*)A[32]; (void)u_;
  T* v_ = (T*)A[33]; (void)v_;
  T* c_ = (T*)A[34]; (void)c_;
  T* r_ = (T*)A[35]; (void)r_;
  T* q_ = (T*)A[36]; (void)q_;
  const auto i = Ib{lo0, hi0};
  auto u = make_md_span(u_, gu, Ib{lo0 - xl0, hi0 + xh0 + 1}); (void)u;
  auto v = make_md_span(v_, gv, i + 1); (void)v;
  auto c = make_md_span(c_, gc, i); (void)c;
  auto r = make_md_span(r_, gr, Ib{lo0 - yl0, hi0 + yh0}); (void)r;
  auto q = make_md_span(q_, gr, Ib{lo0 - xl0, hi0 + xh0}); (void)q;
  with_domain(i)(r = (3 / (c + 2)));
  }
template <class T> static void e08_10(void** A) {
  const int lo0 = *(int*)A[0]; (void)lo0;
  const int hi0 = *(int*)A[1]; (void)hi0;
  const int lo1 = *(int*)A[2]; (void)lo1;
  const int hi1 = *(int*)A[3]; (void)hi1;
  const int lo2 = *(int*)A[4]; (void)lo2;
  const int hi2 = *(int*)A[5]; (void)hi2;
  const int s0 = *(int*)A[6]; (void)s0;
  const int s1 = *(int*)A[7]; (void)s1;
  const int s2 = *(int*)A[8]; (void)s2;
  const int gu = *(int*)A[9]; (void)gu;
  const int gv = *(int*)A[10]; (void)gv;
  const int gc = *(int*)A[11]; (void)gc;
  const int gr = *(int*)A[12]; (void)gr;
  const int xl0 = *(int*)A[13]; (void)xl0;
  const int xh0 = *(int*)A[14]; (void)xh0;
  const int xl1 = *(int*)A[15]; (void)xl1;
  const int xh1 = *(int*)A[16]; (void)xh1;
  const int xl2 = *(int*)A[17]; (void)xl2;
  const int xh2 = *(int*)A[18]; (void)xh2;
  const int yl0 = *(int*)A[19]; (void)yl0;
  const int yh0 = *(int*)A[20]; (void)yh0;
  const int yl1 = *(int*)A[21]; (void)yl1;
  const int yh1 = *(int*)A[22]; (void)yh1;
  const int yl2 = *(int*)A[23]; (void)yl2;
  const int yh2 = *(int*)A[24]; (void)yh2;
  const int n1 = *(int*)A[25]; (void)n1;
  const int n2 = *(int*)A[26]; (void)n2;
  const T a = *(T*)A[27]; (void)a;
  const T b = *(T*)A[28]; (void)b;
  const T h0 = *(T*)A[29]; (void)h0;
  const T h1 = *(T*)A[30]; (void)h1;
  const T h2 = *(T*)A[31]; (void)h2;
  T* u_ = (T*)A[32]; (void)u_;
  T* v_ = (T*)A[33]; (void)v_;
  T* c_ = (T*)A[34]; (void)c_;
  T* r_ = (T*)A[35]; (void)r_;
  T* q_ = (T*)A[36]; (void)q_;
  const auto i = Ib{lo0, hi0};
  auto u = make_md_span(u_, gu, Ib{lo0 - xl0, hi0 + xh0}); (void)u;
  auto v = make_md_span(v_, gv, i); (void)v;
  auto c = make_md_span(c_, gc, i + 1); (void)c;
  auto r = make_md_span(r_, gr, Ib{lo0 - yl0, hi0 + yh0}); (void)r;
  auto q = make_md_span(q_, gr, Ib{lo0 - xl0, hi0 + xh0}); (void)q;
  with_domain(Ib{lo0, hi0, s0})(r = (r * T(0.5) + (u + u)));
  }
template <class T> static void e08_18(void** A) {
  const int lo0 = *(int*)A[0]; (void)lo0;
  const int hi0 = *(int*)A[1]; (void)hi0;
  const int lo1 = *(int*)A[2]; (void)lo1;
  const int hi1 = *(int*)A[3]; (void)hi1;
  const int lo2 = *(int*)A[4]; (void)lo2;
  const int hi2 = *(int*)A[5]; (void)hi2;
  const int s0 = *(int*)A[6]; (void)s0;
  const int s1 = *(int*)A[7]; (void)s1;
  const int s2 = *(int*)A[8]; (void)s2;
  const int gu = *(int*)A[9]; (void)gu;
  const int gv = *(int*)A[10]; (void)gv;
  const int gc = *(int*)A[11]; (void)gc;
  const int gr = *(int*)A[12]; (void)gr;
  const int xl0 = *(int*)A[13]; (void)xl0;
  const int xh0 = *(int*)A[14]; (void)xh0;
  const int xl1 = *(int*)A[15]; (void)xl1;
  const int xh1 = *(int*)A[16]; (void)xh1;
  const int xl2 = *(int*)A[17]; (void)xl2;
  const int xh2 = *(int*)A[18]; (void)xh2;
  const int yl0 = *(int*)A[19]; (void)yl0;
  const int yh0 = *(int*)A[20]; (void)yh0;
  const int yl1 = *(int*)A[21]; (void)yl1;
  const int yh1 = *(int*)A[22]; (void)yh1;
  const int yl2 = *(int*)A[23]; (void)yl2;
  const int yh2 = *(int*)A[24]; (void)yh2;
  const int n1 = *(int*)A[25]; (void)n1;
  const int n2 = *(int*)A[26]; (void)n2;
  const T a = *(T*)A[27]; (void)a;
  const T b = *(T*)A[28]; (void)b;
  const T h0 = *(T*)A[29]; (void)h0;
  const T h1 = *(T*)A[30]; (void)h1;
  const T h2 = *(T*)A[31]; (void)h2;
  T* u_ = (T*)A[32]; (void)u_;
  T* v_ = (T*)A[33]; (void)v_;
  T* c_ = (T*)A[34]; (void)c_;
  T* r_ = (T*)A[35]; (void)r_;
  T* q_ = (T*)A[36]; (void)q_;
  const auto i = Ib{lo0, hi0};
  const auto j = Jb{lo1, hi1};
  auto u = make_md_span(u_, gu, Jb{lo1 - xl1, hi1 + xh1}, Ib{lo0 - xl0, hi0 + xh0}); (void)u;
  auto v = make_md_span(v_, gv, i, j); (void)v;
  auto c = make_md_span(c_, gc, i, j); (void)c;
  auto r = make_md_span(r_, gr, Jb{lo1 - yl1, hi1 + yh1}, Ib{lo0 - yl0, hi0 + yh0 + 1}); (void)r;
  auto q = make_md_span(q_, gr, Ib{lo0 - xl0, hi0 + xh0}, Jb{lo1 - xl1, hi1 + xh1}); (void)q;
  with_domain(i, j)(r = (c + u.shift_x(n1)));
  }
template <class T> static void e08_26(void** A) {
  const int lo0 = *(int*)A[0]; (void)lo0;
  const int hi0 = *(int*)A[1]; (void)hi0;
  const int lo1 = *(int*)A[2]; (void)lo1;
  const int hi1 = *(int*)A[3]; (void)hi1;
  const int lo2 = *(int*)A[4]; (void)lo2;
  const int hi2 = *(int*)A[5]; (void)hi2;
  const int s0 = *(int*)A[6]; (void)s0;
  const int s1 = *(int*)A[7]; (void)s1;
  const int s2 = *(int*)A[8]; (void)s2;
  const int gu = *(int*)A[9]; (void)gu;
  const int gv = *(int*)A[10]; (void)gv;
  const int gc = *(int*)A[11]; (void)gc;
  const int gr = *(int*)A[12]; (void)gr;
  const int xl0 = *(int*)A[13]; (void)xl0;
  const int xh0 = *(int*)A[14]; (void)xh0;
  const int xl1 = *(int*)A[15]; (void)xl1;
  const int xh1 = *(int*)A[16]; (void)xh1;
  const int xl2 = *(int*)A[17]; (void)xl2;
  const int xh2 = *(int*)A[18]; (void)xh2;
  const int yl0 = *(int*)A[19]; (void)yl0;
  const int yh0 = *(int*)A[20]; (void)yh0;
  const int yl1 = *(int*)A[21]; (void)yl1;
  const int yh1 = *(int*)A[22]; (void)yh1;
  const int yl2 = *(int*)A[23]; (void)yl2;
  const int yh2 = *(int*)A[24]; (void)yh2;
  const int n1 = *(int*)A[25]; (void)n1;
  const int n2 = *(int*)A[26]; (void)n2;
  const T a = *(T*)A[27]; (void)a;
  const T b = *(T*)A[28]; (void)b;
  const T h0 = *(T*)A[29]; (void)h0;
  const T h1 = *(T*)A[30]; (void)h1;
  const T h2 = *(T*)A[31]; (void)h2;
  T* u_ = (T*)A[32]; (void)u_;
  T* v_ = (T*)A[33]; (void)v_;
  T* c_ = (T*)A[34]; (void)c_;
  T* r_ = (T*)A[35]; (void)r_;
  T* q_ = (T*)A[36]; (void)q_;
  const auto i = Ib{lo0, hi0};
  const auto j = Jb{lo1, hi1};
  auto u = make_md_span(u_, gu, Jb{lo1 - xl1, hi1 + xh1}, Ib{lo0 - xl0, hi0 + xh0}); (void)u;
  auto v = make_md_span(v_, gv, i, j); (void)v;
  auto c = make_md_span(c_, gc, i, j); (void)c;
  auto r = make_md_span(r_, gr, Ib{lo0 - yl0, hi0 + yh0}, Jb{lo1 - yl1, hi1 + yh1}); (void)r;
  auto q = make_md_span(q_, gr, Jb{lo1 - xl1, hi1 + xh1}, Ib{lo0 - xl0, hi0 + xh0}); (void)q;
  with_domain(j, i)(r = 2);
  }
template <class T> static void e08_34(void** A) {
  const int lo0 = *(int*)A[0]; (void)lo0;
  const int hi0 = *(int*)A[1]; (void)hi0;
  const int lo1 = *(int*)A[2]; (void)lo1;
  const int hi1 = *(int*)A[3]; (void)hi1;
  const int lo2 = *(int*)A[4]; (void)lo2;
  const int hi2 = *(int*)A[5]; (void)hi2;
  const int s0 = *(int*)A[6]; (void)s0;
  const int s1 = *(int*)A[7]; (void)s1;
  const int s2 = *(int*)A[8]; (void)s2;
  const int gu = *(int*)A[9]; (void)gu;
  const int gv = *(int*)A[10]; (void)gv;
  const int gc = *(int*)A[11]; (void)gc;
  const int gr = *(int*)A[12]; (void)gr;
  const int xl0 = *(int*)A[13]; (void)xl0;
  const int xh0 = *(int*)A[14]; (void)xh0;
  const int xl1 = *(int*)A[15]; (void)xl1;
  const int xh1 = *(int*)A[16]; (void)xh1;
  const int xl2 = *(int*)A[17]; (void)xl2;
  const int xh2 = *(int*)A[18]; (void)xh2;
  const int yl0 = *(int*)A[19]; (void)yl0;
  const int yh0 = *(int*)A[20]; (void)yh0;
  const int yl1 = *(int*)A[21]; (void)yl1;
  const int yh1 = *(int*)A[22]; (void)yh1;
  const int yl2 = *(int*)A[23]; (void)yl2;
  const int yh2 = *(int*)A[24]; (void)yh2;
  const int n1 = *(int*)A[25]; (void)n1;
  const int n2 = *(int*)A[26]; (void)n2;
  const T a = *(T*)A[27]; (void)a;
  const T b = *(T*)A[28]; (void)b;
  const T h0 = *(T*)A[29]; (void)h0;
  const T h1 = *(T*)A[30]; (void)h1;
  const T h2 = *(T*)A[31]; (void)h2;
  T* u_ = (T*)A[32]; (void)u_;
  T* v_ = (T*)A[33]; (void)v_;
  T* c_ = (T*)A[34]; (void)c_;
  T* r_ = (T*)A[35]; (void)r_;
  T* q_ = (T*)A[36]; (void)q_;
  const auto i = Ib{lo0, hi0};
  const auto j = Jb{lo1, hi1};
  const auto k = Kb{lo2, hi2};
  auto u = make_md_span(u_, gu, Kb{lo2 - xl2, hi2 + xh2}, Ib{lo0 - xl0, hi0 + xh0}, Jb{lo1 - xl1, hi1 + xh1}); (void)u;
  auto v = make_md_span(v_, gv, j, i, k); (void)v;
  auto c = make_md_span(c_, gc, k + 1, i, j); (void)c;
  auto r = make_md_span(r_, gr, Ib{lo0 - yl0, hi0 + yh0}, Kb{lo2 - yl2, hi2 + yh2}, Jb{lo1 - yl1, hi1 + yh1}); (void)r;
  auto q = make_md_span(q_, gr, Jb{lo1 - xl1, hi1 + xh1}, Ib{lo0 - xl0, hi0 + xh0}, Kb{lo2 - xl2, hi2 + xh2}); (void)q;
  with_lhs_domain(r = (u.grad_x(h0, down) + u));
  }
template <class T> static void e08_42(void** A) {
  const int lo0 = *(int*)A[0]; (void)lo0;
  const int hi0 = *(int*)A[1]; (void)hi0;
  const int lo1 = *(int*)A[2]; (void)lo1;
  const int hi1 = *(int*)A[3]; (void)hi1;
  const int lo2 = *(int*)A[4]; (void)lo2;
  const int hi2 = *(int*)A[5]; (void)hi2;
  const int s0 = *(int*)A[6]; (void)s0;
  const int s1 = *(int*)A[7]; (void)s1;
  const int s2 = *(int*)A[8]; (void)s2;
  const int gu = *(int*)A[9]; (void)gu;
  const int gv = *(int*)A[10]; (void)gv;
  const int gc = *(int*)A[11]; (void)gc;
  const int gr = *(int*)A[12]; (void)gr;
  const int xl0 = *(int*)A[13]; (void)xl0;
  const int xh0 = *(int*)A[14]; (void)xh0;
  const int xl1 = *(int*)A[15]; (void)xl1;
  const int xh1 = *(int*)A[16]; (void)xh1;
  const int xl2 = *(int*)A[17]; (void)xl2;
  const int xh2 = *(int*)A[18]; (void)xh2;
  const int yl0 = *(int*)A[19]; (void)yl0;
  const int yh0 = *(int*)A[20]; (void)yh0;
  const int yl1 = *(int*)A[21]; (void)yl1;
  const int yh1 = *(int*)A[22]; (void)yh1;
  const int yl2 = *(int*)A[23]; (void)yl2;
  const int yh2 = *(int*)A[24]; (void)yh2;
  const int n1 = *(int*)A[25]; (void)n1;
  const int n2 = *(int*)A[26]; (void)n2;
  const T a = *(T*)A[27]; (void)a;
  const T b = *(T*)A[28]; (void)b;
  const T h0 = *(T*)A[29]; (void)h0;
  const T h1 = *(T*)A[30]; (void)h1;
  const T h2 = *(T*)A[31]; (void)h2;
  T* u_ = (T*)A[32]; (void)u_;
  T* v_ = (T*)A[33]; (void)v_;
  T* c_ = (T*)A[34]; (void)c_;
  T* r_ = (T*)A[35]; (void)r_;
  T* q_ = (T*)A[36]; (void)q_;
  const auto j = Jb{lo1, hi1};
  auto u = make_md_span(u_, gu, Jb{lo1 - xl1, hi1 + xh1}); (void)u;
  auto v = make_md_span(v_, gv, j); (void)v;
  auto c = make_md_span(c_, gc, j); (void)c;
  auto r = make_md_span(r_, gr, Jb{lo1 - yl1, hi1 + yh1 + 1}); (void)r;
  auto q = make_md_span(q_, gr, Jb{lo1 - xl1, hi1 + xh1 + 1}); (void)q;
  with_domain(j)(r = ((a / (c + 2)) - a));
  }
template <class T> static void e08_50(void** A) {
  const int lo0 = *(int*)A[0]; (void)lo0;
  const int hi0 = *(int*)A[1]; (void)hi0;
  const int lo1 = *(int*)A[2]; (void)lo1;
  const int hi1 = *(int*)A[3]; (void)hi1;
  const int lo2 = *(int*)A[4]; (void)lo2;
  const int hi2 = *(int*)A[5]; (void)hi2;
  const int s0 = *(int*)A[6]; (void)s0;
  const int s1 = *(int*)A[7]; (void)s1;
  const int s2 = *(int*)A[8]; (void)s2;
  const int gu = *(int*)A[9]; (void)gu;
  const int gv = *(int*)A[10]; (void)gv;
  const int gc = *(int*)A[11]; (void)gc;
  const int gr = *(int*)A[12]; (void)gr;
  const int xl0 = *(int*)A[13]; (void)xl0;
  const int xh0 = *(int*)A[14]; (void)xh0;
  const int xl1 = *(int*)A[15]; (void)xl1;
  const int xh1 = *(int*)A[16]; (void)xh1;
  const int xl2 = *(int*)A[17]; (void)xl2;
  const int xh2 = *(int*)A[18]; (void)xh2;
  const int yl0 = *(int*)A[19]; (void)yl0;
  const int yh0 = *(int*)A[20]; (void)yh0;
  const int yl1 = *(int*)A[21]; (void)yl1;
  const int yh1 = *(int*)A[22]; (void)yh1;
  const int yl2 = *(int*)A[23]; (void)yl2;
  const int yh2 = *(int*)A[24]; (void)yh2;
  const int n1 = *(int*)A[25]; (void)n1;
  const int n2 = *(int*)A[26]; (void)n2;
  const T a = *(T*)A[27]; (void)a;
  const T b = *(T*)A[28]; (void)b;
  const T h0 = *(T*)A[29]; (void)h0;
  const T h1 = *(T*)A[30]; (void)h1;
  const T h2 = *(T*)A[31]; (void)h2;
  T* u_ = (T*)A[32]; (void)u_;
  T* v_ = (T*)A[33]; (void)v_;
  T* c_ = (T*)A[34]; (void)c_;
  T* r_ = (T*)A[35]; (void)r_;
  T* q_ = (T*)A[36]; (void)q_;
  const auto i = Ib{lo0, hi0};
  auto u = make_md_span(u_, gu, Ib{lo0 - xl0, hi0 + xh0}); (void)u;
  auto v = make_md_span(v_, gv, i + 1); (void)v;
  auto c = make_md_span(c_, gc, i); (void)c;
  auto r = make_md_span(r_, gr, Ib{lo0 - yl0, hi0 + yh0}); (void)r;
  auto q = make_md_span(q_, gr, Ib{lo0 - xl0, hi0 + xh0}); (void)q;
  with_domain(i)(r = (c.grad_x(h0, down) + v.grad_x(h0, down)), q = b * r.shift_x(-1) + (T(0.5) + c.shift_x(-2)));
  }
template <class T> static void e08_58(void** A) {
  const int lo0 = *(int*)A[0]; (void)lo0;
  const int hi0 = *(int*)A[1]; (void)hi0;
  const int lo1 = *(int*)A[2]; (void)lo1;
  const int hi1 = *(int*)A[3]; (void)hi1;
  const int lo2 = *(int*)A[4]; (void)lo2;
  const int hi2 = *(int*)A[5]; (void)hi2;
  const int s0 = *(int*)A[6]; (void)s0;
  const int s1 = *(int*)A[7]; (void)s1;
  const int s2 = *(int*)A[8]; (void)s2;
  const int gu = *(int*)A[9]; (void)gu;
  const int gv = *(int*)A[10]; (void)gv;
  const int gc = *(int*)A[11]; (void)gc;
  const int gr = *(int*)A[12]; (void)gr;
  const int xl0 = *(int*)A[13]; (void)xl0;
  const int xh0 = *(int*)A[14]; (void)xh0;
  const int xl1 = *(int*)A[15]; (void)xl1;
  const int xh1 = *(int*)A[16]; (void)xh1;
  const int xl2 = *(int*)A[17]; (void)xl2;
  const int xh2 = *(int*)A[18]; (void)xh2;
  const int yl0 = *(int*)A[19]; (void)yl0;
  const int yh0 = *(int*)A[20]; (void)yh0;
  const int yl1 = *(int*)A[21]; (void)yl1;
  const int yh1 = *(int*)A[22]; (void)yh1;
  const int yl2 = *(int*)A[23]; (void)yl2;
  const int yh2 = *(int*)A[24]; (void)yh2;
  const int n1 = *(int*)A[25]; (void)n1;
  const int n2 = *(int*)A[26]; (void)n2;
  const T a = *(T*)A[27]; (void)a;
  const T b = *(T*)A[28]; (void)b;
  const T h0 = *(T*)A[29]; (void)h0;
  const T h1 = *(T*)A[30]; (void)h1;
  const T h2 = *(T*)A[31]; (void)h2;
  T* u_ = (T*)A[32]; (void)u_;
  T* v_ = (T*)A[33]; (void)v_;
  T* c_ = (T*)A[34]; (void)c_;
  T* r_ = (T*)A[35]; (void)r_;
  T* q_ = (T*)A[36]; (void)q_;
  const auto i = Ib{lo0, hi0};
  const auto j = Jb{lo1, hi1};
  auto u = make_md_span(u_, gu, Ib{lo0 - xl0, hi0 + xh0 + 1}, Jb{lo1 - xl1, hi1 + xh1}); (void)u;
  auto v = make_md_span(v_, gv, i + 1, j); (void)v;
  auto c = make_md_span(c_, gc, i, j + 1); (void)c;
  auto r = make_md_span(r_, gr, Jb{lo1 - yl1, hi1 + yh1}, Ib{lo0 - yl0, hi0 + yh0}); (void)r;
  auto q = make_md_span(q_, gr, Ib{lo0 - xl0, hi0 + xh0}, Jb{lo1 - xl1, hi1 + xh1}); (void)q;
  with_domain(i, j)(r = (1.5 + c.grad_x(h0)));
  }
template <class T> static void e08_s00(void** A) {
  const int lo0 = *(int*)A[0]; (void)lo0;
  const int hi0 = *(int*)A[1]; (void)hi0;
  const int lo1 = *(int*)A[2]; (void)lo1;
  const int hi1 = *(int*)A[3]; (void)hi1;
  const int lo2 = *(int*)A[4]; (void)lo2;
  const int hi2 = *(int*)A[5]; (void)hi2;
  const int s0 = *(int*)A[6]; (void)s0;
  const int s1 = *(int*)A[7]; (void)s1;
  const int s2 = *(int*)A[8]; (void)s2;
  const int gu = *(int*)A[9]; (void)gu;
  const int gv = *(int*)A[10]; (void)gv;
  const int gc = *(int*)A[11]; (void)gc;
  const int gr = *(int*)A[12]; (void)gr;
  const int xl0 = *(int*)A[13]; (void)xl0;
  const int xh0 = *(int*)A[14]; (void)xh0;
  const int xl1 = *(int*)A[15]; (void)xl1;
  const int xh1 = *(int*)A[16]; (void)xh1;
  const int xl2 = *(int*)A[17]; (void)xl2;
  const int xh2 = *(int*)A[18]; (void)xh2;
  const int yl0 = *(int*)A[19]; (void)yl0;
  const int yh0 = *(int*)A[20]; (void)yh0;
  const int yl1 = *(int*)A[21]; (void)yl1;
  const int yh1 = *(int*)A[22]; (void)yh1;
  const int yl2 = *(int*)A[23]; (void)yl2;
  const int yh2 = *(int*)A[24]; (void)yh2;
  const int n1 = *(int*)A[25]; (void)n1;
  const int n2 = *(int*)A[26]; (void)n2;
  const T a = *(T*)A[27]; (void)a;
  const T b = *(T*)A[28]; (void)b;
  const T h0 = *(T*)A[29]; (void)h0;
  const T h1 = *(T*)A[30]; (void)h1;
  const T h2 = *(T*)A[31]; (void)h2;
  T* u_ = (T*)A[32]; (void)u_;
  T* v_ = (T*)A[33]; (void)v_;
  T* c_ = (T*)A[34]; (void)c_;
  T* r_ = (T*)A[35]; (void)r_;
  T* q_ = (T*)A[36]; (void)q_;
  const auto i = Ib{lo0 - n1, hi0 - n1}.shift(n1);
  const auto j = (Jb{lo1 + 2, hi1 - 3} - 2) + 3;
  auto u = make_md_span(u_, gu, Jb{lo1 - xl1, hi1 + xh1}, Ib{lo0 - xl0, hi0 + xh0}); (void)u;
  auto v = make_md_span(v_, gv, i, j); (void)v;
  auto c = make_md_span(c_, gc, j, i); (void)c;
  auto r = make_md_span(r_, gr, Ib{lo0 - yl0, hi0 + yh0}, Jb{lo1 - yl1, hi1 + yh1}); (void)r;
  auto q = make_md_span(q_, gr, Jb{lo1 - xl1, hi1 + xh1}, Ib{lo0 - xl0, hi0 + xh0}); (void)q;
  with_domain(j, i)(r = a * u.shift_y(n1) + a * v.shift_x(n1) + T(0.5) * c.grad_x(h0));
  }
template <class T> static void e08_s08(void** A) {
  const int lo0 = *(int*)A[0]; (void)lo0;
  const int hi0 = *(int*)A[1]; (void)hi0;
  const int lo1 = *(int*)A[2]; (void)lo1;
  const int hi1 = *(int*)A[3]; (void)hi1;
  const int lo2 = *(int*)A[4]; (void)lo2;
  const int hi2 = *(int*)A[5]; (void)hi2;
  const int s0 = *(int*)A[6]; (void)s0;
  const int s1 = *(int*)A[7]; (void)s1;
  const int s2 = *(int*)A[8]; (void)s2;
  const int gu = *(int*)A[9]; (void)gu;
  const int gv = *(int*)A[10]; (void)gv;
  const int gc = *(int*)A[11]; (void)gc;
  const int gr = *(int*)A[12]; (void)gr;
  const int xl0 = *(int*)A[13]; (void)xl0;
  const int xh0 = *(int*)A[14]; (void)xh0;
  const int xl1 = *(int*)A[15]; (void)xl1;
  const int xh1 = *(int*)A[16]; (void)xh1;
  const int xl2 = *(int*)A[17]; (void)xl2;
  const int xh2 = *(int*)A[18]; (void)xh2;
  const int yl0 = *(int*)A[19]; (void)yl0;
  const int yh0 = *(int*)A[20]; (void)yh0;
  const int yl1 = *(int*)A[21]; (void)yl1;
  const int yh1 = *(int*)A[22]; (void)yh1;
  const int yl2 = *(int*)A[23]; (void)yl2;
  const int yh2 = *(int*)A[24]; (void)yh2;
  const int n1 = *(int*)A[25]; (void)n1;
  const int n2 = *(int*)A[26]; (void)n2;
  const T a = *(T*)A[27]; (void)a;
  const T b = *(T*)A[28]; (void)b;
  const T h0 = *(T*)A[29]; (void)h0;
  const T h1 = *(T*)A[30]; (void)h1;
  const T h2 = *(T*)A[31]; (void)h2;
  T* u_ = (T*)A[32]; (void)u_;
  T* v_ = (T*)A[33]; (void)v_;
  T* c_ = (T*)A[34]; (void)c_;
  T* r_ = (T*)A[35]; (void)r_;
  T* q_ = (T*)A[36]; (void)q_;
  const auto i = Ib{lo0, hi0};
  const auto j = Jb{lo1, hi1};
  const auto k = Kb{lo2, hi2};
  auto u = make_md_span(u_, gu, Jb{lo1 - xl1, hi1 + xh1}, Ib{lo0 - xl0, hi0 + xh0}, Kb{lo2 - xl2, hi2 + xh2}); (void)u;
  auto v = make_md_span(v_, gv, i, j + 1, k); (void)v;
  auto c = make_md_span(c_, gc, i, k, j); (void)c;
  auto r = make_md_span(r_, gr, Kb{lo2 - yl2, hi2 + yh2}, Ib{lo0 - yl0, hi0 + yh0}, Jb{lo1 - yl1, hi1 + yh1}); (void)r;
  auto q = make_md_span(q_, gr, Jb{lo1 - xl1, hi1 + xh1}, Kb{lo2 - xl2, hi2 + xh2}, Ib{lo0 - xl0, hi0 + xh0}); (void)q;
  auto e = 2 * u.shift_z(n1) + T(0.5) * v.grad_z(h2, up) + 3 * c.shift_x(n1);
  with_domain(k, j, i)(r = e, q = e - a);
  }
template <class T> static void e08_s16(void** A) {
  const int lo0 = *(int*)A[0]; (void)lo0;
  const int hi0 = *(int*)A[1]; (void)hi0;
  const int lo1 = *(int*)A[2]; (void)lo1;
  const int hi1 = *(int*)A[3]; (void)hi1;
  const int lo2 = *(int*)A[4]; (void)lo2;
  const int hi2 = *(int*)A[5]; (void)hi2;
  const int s0 = *(int*)A[6]; (void)s0;
  const int s1 = *(int*)A[7]; (void)s1;
  const int s2 = *(int*)A[8]; (void)s2;
  const int gu = *(int*)A[9]; (void)gu;
  const int gv = *(int*)A[10]; (void)gv;
  const int gc = *(int*)A[11]; (void)gc;
  const int gr = *(int*)A[12]; (void)gr;
  const int xl0 = *(int*)A[13]; (void)xl0;
  const int xh0 = *(int*)A[14]; (void)xh0;
  const int xl1 = *(int*)A[15]; (void)xl1;
  const int xh1 = *(int*)A[16]; (void)xh1;
  const int xl2 = *(int*)A[17]; (void)xl2;
  const int xh2 = *(int*)A[18]; (void)xh2;
  const int yl0 = *(int*)A[19]; (void)yl0;
  const int yh0 = *(int*)A[20]; (void)yh0;
  const int yl1 = *(int*)A[21]; (void)yl1;
  const int yh1 = *(int*)A[22]; (void)yh1;
  const int yl2 = *(int*)A[23]; (void)yl2;
  const int yh2 = *(int*)A[24]; (void)yh2;
  const int n1 = *(int*)A[25]; (void)n1;
  const int n2 = *(int*)A[26]; (void)n2;
  const T a = *(T*)A[27]; (void)a;
  const T b = *(T*)A[28]; (void)b;
  const T h0 = *(T*)A[29]; (void)h0;
  const T h1 = *(T*)A[30]; (void)h1;
  const T h2 = *(T*)A[31]; (void)h2;
  T* u_ = (T*)A[32]; (void)u_;
  T* v_ = (T*)A[33]; (void)v_;
  T* c_ = (T*)A[34]; (void)c_;
  T* r_ = (T*)A[35]; (void)r_;
  T* q_ = (T*)A[36]; (void)q_;
  const auto i = Ib{lo0, hi0};
  const auto j = Jb{lo1, hi1};
  const auto k = Kb{lo2, hi2};
  auto u = make_md_span(u_, gu, Jb{lo1 - xl1, hi1 + xh1}, Kb{lo2 - xl2, hi2 + xh2}, Ib{lo0 - xl0, hi0 + xh0}); (void)u;
  auto v = make_md_span(v_, gv, j, i, k); (void)v;
  auto c = make_md_span(c_, gc, i, j, k); (void)c;
  auto r = make_md_span(r_, gr, Kb{lo2 - yl2, hi2 + yh2}, Ib{lo0 - yl0, hi0 + yh0}, Jb{lo1 - yl1, hi1 + yh1}); (void)r;
  auto q = make_md_span(q_, gr, Ib{lo0 - xl0, hi0 + xh0}, Jb{lo1 - xl1, hi1 + xh1}, Kb{lo2 - xl2, hi2 + xh2}); (void)q;
  with_domain(k, i, j)(r = -1 * u.shift_x(n1) + a * v.shift_xz(n1, n2) + -1 * c.grad_z(h2, down));
  }
template <class T> static void e08_s24(void** A) {
  const int lo0 = *(int*)A[0]; (void)lo0;
  const int hi0 = *(int*)A[1]; (void)hi0;
  const int lo1 = *(int*)A[2]; (void)lo1;
  const int hi1 = *(int*)A[3]; (void)hi1;
  const int lo2 = *(int*)A[4]; (void)lo2;
  const int hi2 = *(int*)A[5]; (void)hi2;
  const int s0 = *(int*)A[6]; (void)s0;
  const int s1 = *(int*)A[7]; (void)s1;
  const int s2 = *(int*)A[8]; (void)s2;
  const int gu = *(int*)A[9]; (void)gu;
  const int gv = *(int*)A[10]; (void)gv;
  const int gc = *(int*)A[11]; (void)gc;
  const int gr = *(int*)A[12]; (void)gr;
  const int xl0 = *(int*)A[13]; (void)xl0;
  const int xh0 = *(int*)A[14]; (void)xh0;
  const int xl1 = *(int*)A[15]; (void)xl1;
  const int xh1 = *(int*)A[16]; (void)xh1;
  const int xl2 = *(int*)A[17]; (void)xl2;
  const int xh2 = *(int*)A[18]; (void)xh2;
  const int yl0 = *(int*)A[19]; (void)yl0;
  const int yh0 = *(int*)A[20]; (void)yh0;
  const int yl1 = *(int*)A[21]; (void)yl1;
  const int yh1 = *(int*)A[22]; (void)yh1;
  const int yl2 = *(int*)A[23]; (void)yl2;
  const int yh2 = *(int*)A[24]; (void)yh2;
  const int n1 = *(int*)A[25]; (void)n1;
  const int n2 = *(int*)A[26]; (void)n2;
  const T a = *(T*)A[27]; (void)a;
  const T b = *(T*)A[28]; (void)b;
  const T h0 = *(T*)A[29]; (void)h0;
  const T h1 = *(T*)A[30]; (void)h1;
  const T h2 = *(T*)A[31]; (void)h2;
  T* u_ = (T*)A[32]; (void)u_;
  T* v_ = (T*)A[33]; (void)v_;
  T* c_ = (T*)A[34]; (void)c_;
  T* r_ = (T*)A[35]; (void)r_;
  T* q_ = (T*)A[36]; (void)q_;
  const auto i = Ib{lo0 - n1, hi0 - n1}.shift(n1);
  const auto j = (Jb{lo1 + 2, hi1 - 3} - 2) + 3;
  const auto k = Kb{lo2 + 1, hi2 - 1}.expand(1);
  auto u = make_md_span(u_, gu, Kb{lo2 - xl2, hi2 + xh2}, Jb{lo1 - xl1, hi1 + xh1}, Ib{lo0 - xl0, hi0 + xh0}); (void)u;
  auto v = make_md_span(v_, gv, i, k, j); (void)v;
  auto c = make_md_span(c_, gc, j, i, k); (void)c;
  auto r = make_md_span(r_, gr, Kb{lo2 - yl2, hi2 + yh2}, Ib{lo0 - yl0, hi0 + yh0}, Jb{lo1 - yl1, hi1 + yh1}); (void)r;
  auto q = make_md_span(q_, gr, Kb{lo2 - xl2, hi2 + xh2}, Ib{lo0 - xl0, hi0 + xh0 + 1}, Jb{lo1 - xl1, hi1 + xh1}); (void)q;
  auto e = 2 * u.shift_xy(n1, n2) + b * v.shift_yz(n1, n2) + b * c.shift_xy();
  with_domain(j, i, k)(r = e, q = e - a);
  }
template <class T> static void e08_s32(void** A) {
  const int lo0 = *(int*)A[0]; (void)lo0;
  const int hi0 = *(int*)A[1]; (void)hi0;
  const int lo1 = *(int*)A[2]; (void)lo1;
  const int hi1 = *(int*)A[3]; (void)hi1;
  const int lo2 = *(int*)A[4]; (void)lo2;
  const int hi2 = *(int*)A[5]; (void)hi2;
  const int s0 = *(int*)A[6]; (void)s0;
  const int s1 = *(int*)A[7]; (void)s1;
  const int s2 = *(int*)A[8]; (void)s2;
  const int gu = *(int*)A[9]; (void)gu;
  const int gv = *(int*)A[10]; (void)gv;
  const int gc = *(int*)A[11]; (void)gc;
  const int gr = *(int*)A[12]; (void)gr;
  const int xl0 = *(int*)A[13]; (void)xl0;
  const int xh0 = *(int*)A[14]; (void)xh0;
  const int xl1 = *(int*)A[15]; (void)xl1;
  const int xh1 = *(int*)A[16]; (void)xh1;
  const int xl2 = *(int*)A[17]; (void)xl2;
  const int xh2 = *(int*)A[18]; (void)xh2;
  const int yl0 = *(int*)A[19]; (void)yl0;
  const int yh0 = *(int*)A[20]; (void)yh0;
  const int yl1 = *(int*)A[21]; (void)yl1;
  const int yh1 = *(int*)A[22]; (void)yh1;
  const int yl2 = *(int*)A[23]; (void)yl2;
  const int yh2 = *(int*)A[24]; (void)yh2;
  const int n1 = *(int*)A[25]; (void)n1;
  const int n2 = *(int*)A[26]; (void)n2;
  const T a = *(T*)A[27]; (void)a;
  const T b = *(T*)A[28]; (void)b;
  const T h0 = *(T*)A[29]; (void)h0;
  const T h1 = *(T*)A[30]; (void)h1;
  const T h2 = *(T*)A[31]; (void)h2;
  T* u_ = (T*)A[32]; (void)u_;
  T* v_ = (T*)A[33]; (void)v_;
  T* c_ = (T*)A[34]; (void)c_;
  T* r_ = (T*)A[35]; (void)r_;
  T* q_ = (T*)A[36]; (void)q_;
  const auto i = Ib{lo0 + 1, hi0 - 1}.expand(1);
  const auto j = Jb{lo1 + 2, hi1} + -2;
  const auto k = Kb{lo2, hi2 + 1, 1, false};
  auto u = make_md_span(u_, gu, Ib{lo0 - xl0, hi0 + xh0}, Jb{lo1 - xl1, hi1 + xh1}, Kb{lo2 - xl2, hi2 + xh2}); (void)u;
  auto v = make_md_span(v_, gv, i, j, k); (void)v;
  auto c = make_md_span(c_, gc, j, k, i + 1); (void)c;
  auto r = make_md_span(r_, gr, Ib{lo0 - yl0, hi0 + yh0}, Kb{lo2 - yl2, hi2 + yh2}, Jb{lo1 - yl1, hi1 + yh1}); (void)r;
  auto q = make_md_span(q_, gr, Jb{lo1 - xl1, hi1 + xh1}, Ib{lo0 - xl0, hi0 + xh0}, Kb{lo2 - xl2, hi2 + xh2}); (void)q;
  with_domain(j, i, k)(r = -1 * u.grad_z(h2) + -1 * v.shift_xy() + 3 * c.shift_yz(n1, n2));
  }
template <class T> static void e08_s40(void** A) {
  const int lo0 = *(int*)A[0]; (void)lo0;
  const int hi0 = *(int*)A[1]; (void)hi0;
  const int lo1 = *(int*)A[2]; (void)lo1;
  const int hi1 = *(int*)A[3]; (void)hi1;
  const int lo2 = *(int*)A[4]; (void)lo2;
  const int hi2 = *(int*)A[5]; (void)hi2;
  const int s0 = *(int*)A[6]; (void)s0;
  const int s1 = *(int*)A[7]; (void)s1;
  const int s2 = *(int*)A[8]; (void)s2;
  const int gu = *(int*)A[9]; (void)gu;
  const int gv = *(int*)A[10]; (void)gv;
  const int gc = *(int*)A[11]; (void)gc;
  const int gr = *(int*)A[12]; (void)gr;
  const int xl0 = *(int*)A[13]; (void)xl0;
  const int xh0 = *(int*)A[14]; (void)xh0;
  const int xl1 = *(int*)A[15]; (void)xl1;
  const int xh1 = *(int*)A[16]; (void)xh1;
  const int xl2 = *(int*)A[17]; (void)xl2;
  const int xh2 = *(int*)A[18]; (void)xh2;
  const int yl0 = *(int*)A[19]; (void)yl0;
  const int yh0 = *(int*)A[20]; (void)yh0;
  const int yl1 = *(int*)A[21]; (void)yl1;
  const int yh1 = *(int*)A[22]; (void)yh1;
  const int yl2 = *(int*)A[23]; (void)yl2;
  const int yh2 = *(int*)A[24]; (void)yh2;
  const int n1 = *(int*)A[25]; (void)n1;
  const int n2 = *(int*)A[26]; (void)n2;
  const T a = *(T*)A[27]; (void)a;
  const T b = *(T*)A[28]; (void)b;
  const T h0 = *(T*)A[29]; (void)h0;
  const T h1 = *(T*)A[30]; (void)h1;
  const T h2 = *(T*)A[31]; (void)h2;
  T* u_ = (T*)A[32]; (void)u_;
  T* v_ = (T*)A[33]; (void)v_;
  T* c_ = (T*)A[34]; (void)c_;
  T* r_ = (T*)A[35]; (void)r_;
  T* q_ = (T*)A[36]; (void)q_;
  const auto i = Ib{lo0, hi0};
  const auto j = Jb{lo1, hi1};
  const auto k = Kb{lo2, hi2};
  auto u = make_md_span(u_, gu, Kb{lo2 - xl2, hi2 + xh2}, Jb{lo1 - xl1, hi1 + xh1}, Ib{lo0 - xl0, hi0 + xh0}); (void)u;
  auto v = make_md_span(v_, gv, j, i, k); (void)v;
  auto c = make_md_span(c_, gc, j, k, i); (void)c;
  auto r = make_md_span(r_, gr, Jb{lo1 - yl1, hi1 + yh1}, Ib{lo0 - yl0, hi0 + yh0}, Kb{lo2 - yl2, hi2 + yh2}); (void)r;
  auto q = make_md_span(q_, gr, Ib{lo0 - xl0, hi0 + xh0}, Kb{lo2 - xl2, hi2 + xh2}, Jb{lo1 - xl1, hi1 + xh1}); (void)q;
  with_domain(j, k, i)(r = b * u.grad_z(h2) + b * v.grad_y(h1, down) + 3 * c.shift_yz());
  }
template <class T> static void e08_s48(void** A) {
  const int lo0 = *(int*)A[0]; (void)lo0;
  const int hi0 = *(int*)A[1]; (void)hi0;
  const int lo1 = *(int*)A[2]; (void)lo1;
  const int hi1 = *(int*)A[3]; (void)hi1;
  const int lo2 = *(int*)A[4]; (void)lo2;
  const int hi2 = *(int*)A[5]; (void)hi2;
  const int s0 = *(int*)A[6]; (void)s0;
  const int s1 = *(int*)A[7]; (void)s1;
  const int s2 = *(int*)A[8]; (void)s2;
  const int gu = *(int*)A[9]; (void)gu;
  const int gv = *(int*)A[10]; (void)gv;
  const int gc = *(int*)A[11]; (void)gc;
  const int gr = *(int*)A[12]; (void)gr;
  const int xl0 = *(int*)A[13]; (void)xl0;
  const int xh0 = *(int*)A[14]; (void)xh0;
  const int xl1 = *(int*)A[15]; (void)xl1;
  const int xh1 = *(int*)A[16]; (void)xh1;
  const int xl2 = *(int*)A[17]; (void)xl2;
  const int xh2 = *(int*)A[18]; (void)xh2;
  const int yl0 = *(int*)A[19]; (void)yl0;
  const int yh0 = *(int*)A[20]; (void)yh0;
  const int yl1 = *(int*)A[21]; (void)yl1;
  const int yh1 = *(int*)A[22]; (void)yh1;
  const int yl2 = *(int*)A[23]; (void)yl2;
  const int yh2 = *(int*)A[24]; (void)yh2;
  const int n1 = *(int*)A[25]; (void)n1;
  const int n2 = *(int*)A[26]; (void)n2;
  const T a = *(T*)A[27]; (void)a;
  const T b = *(T*)A[28]; (void)b;
  const T h0 = *(T*)A[29]; (void)h0;
  const T h1 = *(T*)A[30]; (void)h1;
  const T h2 = *(T*)A[31]; (void)h2;
  T* u_ = (T*)A[32]; (void)u_;
  T* v_ = (T*)A[33]; (void)v_;
  T* c_ = (T*)A[34]; (void)c_;
  T* r_ = (T*)A[35]; (void)r_;
  T* q_ = (T*)A[36]; (void)q_;
  const auto i = Ib{lo0 - n1, hi0 - n1}.shift(n1);
  const auto k = Kb{lo2 + 1, hi2 - 1}.expand(1);
  auto u = make_md_span(u_, gu, Ib{lo0 - xl0, hi0 + xh0}, Kb{lo2 - xl2, hi2 + xh2}); (void)u;
  auto v = make_md_span(v_, gv, i, k); (void)v;
  auto c = make_md_span(c_, gc, k, i); (void)c;
  auto r = make_md_span(r_, gr, Ib{lo0 - yl0, hi0 + yh0}, Kb{lo2 - yl2, hi2 + yh2}); (void)r;
  auto q = make_md_span(q_, gr, Kb{lo2 - xl2, hi2 + xh2}, Ib{lo0 - xl0, hi0 + xh0}); (void)q;
  auto e = 2 * u.grad_z(h2, up) + 2 * v.grad_x(h0, down) + 3 * c.shift_z(n1);
  with_domain(i, k)(r = e, q = e - a);
  }
template <class T> static void e08_s56(void** A) {
  const int lo0 = *(int*)A[0]; (void)lo0;
  const int hi0 = *(int*)A[1]; (void)hi0;
  const int lo1 = *(int*)A[2]; (void)lo1;
  const int hi1 = *(int*)A[3]; (void)hi1;
  const int lo2 = *(int*)A[4]; (void)lo2;
  const int hi2 = *(int*)A[5]; (void)hi2;
  const int s0 = *(int*)A[6]; (void)s0;
  const int s1 = *(int*)A[7]; (void)s1;
  const int s2 = *(int*)A[8]; (void)s2;
  const int gu = *(int*)A[9]; (void)gu;
  const int gv = *(int*)A[10]; (void)gv;
  const int gc = *(int*)A[11]; (void)gc;
  const int gr = *(int*)A[12]; (void)gr;
  const int xl0 = *(int*)A[13]; (void)xl0;
  const int xh0 = *(int*)A[14]; (void)xh0;
  const int xl1 = *(int*)A[15]; (void)xl1;
  const int xh1 = *(int*)A[16]; (void)xh1;
  const int xl2 = *(int*)A[17]; (void)xl2;
  const int xh2 = *(int*)A[18]; (void)xh2;
  const int yl0 = *(int*)A[19]; (void)yl0;
  const int yh0 = *(int*)A[20]; (void)yh0;
  const int yl1 = *(int*)A[21]; (void)yl1;
  const int yh1 = *(int*)A[22]; (void)yh1;
  const int yl2 = *(int*)A[23]; (void)yl2;
  const int yh2 = *(int*)A[24]; (void)yh2;
  const int n1 = *(int*)A[25]; (void)n1;
  const int n2 = *(int*)A[26]; (void)n2;
  const T a = *(T*)A[27]; (void)a;
  const T b = *(T*)A[28]; (void)b;
  const T h0 = *(T*)A[29]; (void)h0;
  const T h1 = *(T*)A[30]; (void)h1;
  const T h2 = *(T*)A[31]; (void)h2;
  T* u_ = (T*)A[32]; (void)u_;
  T* v_ = (T*)A[33]; (void)v_;
  T* c_ = (T*)A[34]; (void)c_;
  T* r_ = (T*)A[35]; (void)r_;
  T* q_ = (T*)A[36]; (void)q_;
  const auto j = Jb{lo1, hi1};
  const auto k = Kb{lo2, hi2};
  auto u = make_md_span(u_, gu, Kb{lo2 - xl2, hi2 + xh2}, Jb{lo1 - xl1, hi1 + xh1}); (void)u;
  auto v = make_md_span(v_, gv, j, k); (void)v;
  auto c = make_md_span(c_, gc, j, k); (void)c;
  auto r = make_md_span(r_, gr, Kb{lo2 - yl2, hi2 + yh2}, Jb{lo1 - yl1, hi1 + yh1}); (void)r;
  auto q = make_md_span(q_, gr, Jb{lo1 - xl1, hi1 + xh1}, Kb{lo2 - xl2, hi2 + xh2}); (void)q;
  with_domain(j, k)(r = T(0.5) * u.grad_z(h2) + 2 * v.grad_z(h2, down));
  }
template <class T> static void e08_f03(void** A) {
  const int lo0 = *(int*)A[0]; (void)lo0;
  const int hi0 = *(int*)A[1]; (void)hi0;
  const int lo1 = *(int*)A[2]; (void)lo1;
  const int hi1 = *(int*)A[3]; (void)hi1;
  const int lo2 = *(int*)A[4]; (void)lo2;
  const int hi2 = *(int*)A[5]; (void)hi2;
  const int s0 = *(int*)A[6]; (void)s0;
  const int s1 = *(int*)A[7]; (void)s1;
  const int s2 = *(int*)A[8]; (void)s2;
  const int gu = *(int*)A[9]; (void)gu;
  const int gv = *(int*)A[10]; (void)gv;
  const int gc = *(int*)A[11]; (void)gc;
  const int gr = *(int*)A[12]; (void)gr;
  const int xl0 = *(int*)A[13]; (void)xl0;
  const int xh0 = *(int*)A[14]; (void)xh0;
  const int xl1 = *(int*)A[15]; (void)xl1;
  const int xh1 = *(int*)A[16]; (void)xh1;
  const int xl2 = *(int*)A[17]; (void)xl2;
  const int xh2 = *(int*)A[18]; (void)xh2;
  const int yl0 = *(int*)A[19]; (void)yl0;
  const int yh0 = *(int*)A[20]; (void)yh0;
  const int yl1 = *(int*)A[21]; (void)yl1;
  const int yh1 = *(int*)A[22]; (void)yh1;
  const int yl2 = *(int*)A[23]; (void)yl2;
  const int yh2 = *(int*)A[24]; (void)yh2;
  const int n1 = *(int*)A[25]; (void)n1;
  const int n2 = *(int*)A[26]; (void)n2;
  const T a = *(T*)A[27]; (void)a;
  const T b = *(T*)A[28]; (void)b;
  const T h0 = *(T*)A[29]; (void)h0;
  const T h1 = *(T*)A[30]; (void)h1;
  const T h2 = *(T*)A[31]; (void)h2;
  T* u_ = (T*)A[32]; (void)u_;
  T* v_ = (T*)A[33]; (void)v_;
  T* c_ = (T*)A[34]; (void)c_;
  T* r_ = (T*)A[35]; (void)r_;
  T* q_ = (T*)A[36]; (void)q_;
  const auto i = Ib{lo0, hi0};
  const auto j = Jb{lo1, hi1};
  const int rt = 2 + (n1 < 0 ? -n1 : n1), st = (n2 < 0 ? -n2 : n2) % rt;
  auto u = make_md_span(u_, gu, Jb{lo1 - xl1, hi1 + xh1}, Ib{lo0 - xl0, hi0 + xh0}); (void)u;
  auto v = make_md_span(v_, gv, i, j); (void)v;
  auto c = make_md_span(c_, gc, i, j); (void)c;
  auto r = make_md_span(r_, gr, i, Jb{lo1 * rt, hi1 * rt + rt - 1}); (void)r;
  auto q = make_md_span(q_, gr, i, Jb{lo1 * rt, hi1 * rt + rt - 1}); (void)q;
  with_domain(Ib{lo0, lo0}, Jb{lo1 * rt + st, hi1 * rt + rt - 1})(r = u.fine(rt, Ib{hi0, hi0}));
  with_domain(Ib{hi0, hi0}, Jb{lo1 * rt + st, hi1 * rt + rt - 1})(q = v.fine(rt, Ib{lo0, lo0}));
  r.at(lo0, lo1 * rt) = c.at(hi0, hi1);
  }
template <class T> static void e08_f11(void** A) {
  const int lo0 = *(int*)A[0]; (void)lo0;
  const int hi0 = *(int*)A[1]; (void)hi0;
  const int lo1 = *(int*)A[2]; (void)lo1;
  const int hi1 = *(int*)A[3]; (void)hi1;
  const int lo2 = *(int*)A[4]; (void)lo2;
  const int hi2 = *(int*)A[5]; (void)hi2;
  const int s0 = *(int*)A[6]; (void)s0;
  const int s1 = *(int*)A[7]; (void)s1;
  const int s2 = *(int*)A[8]; (void)s2;
  const int gu = *(int*)A[9]; (void)gu;
  const int gv = *(int*)A[10]; (void)gv;
  const int gc = *(int*)A[11]; (void)gc;
  const int gr = *(int*)A[12]; (void)gr;
  const int xl0 = *(int*)A[13]; (void)xl0;
  const int xh0 = *(int*)A[14]; (void)xh0;
  const int xl1 = *(int*)A[15]; (void)xl1;
  const int xh1 = *(int*)A[16]; (void)xh1;
  const int xl2 = *(int*)A[17]; (void)xl2;
  const int xh2 = *(int*)A[18]; (void)xh2;
  const int yl0 = *(int*)A[19]; (void)yl0;
  const int yh0 = *(int*)A[20]; (void)yh0;
  const int yl1 = *(int*)A[21]; (void)yl1;
  const int yh1 = *(int*)A[22]; (void)yh1;
  const int yl2 = *(int*)A[23]; (void)yl2;
  const int yh2 = *(int*)A[24]; (void)yh2;
  const int n1 = *(int*)A[25]; (void)n1;
  const int n2 = *(int*)A[26]; (void)n2;
  const T a = *(T*)A[27]; (void)a;
  const T b = *(T*)A[28]; (void)b;
  const T h0 = *(T*)A[29]; (void)h0;
  const T h1 = *(T*)A[30]; (void)h1;
  const T h2 = *(T*)A[31]; (void)h2;
  T* u_ = (T*)A[32]; (void)u_;
  T* v_ = (T*)A[33]; (void)v_;
  T* c_ = (T*)A[34]; (void)c_;
  T* r_ = (T*)A[35]; (void)r_;
  T* q_ = (T*)A[36]; (void)q_;
  const auto i = Ib{lo0, hi0};
  const auto j = Jb{lo1, hi1};
  const auto k = Kb{lo2, hi2};
  const int rt = 2 + (n1 < 0 ? -n1 : n1), st = (n2 < 0 ? -n2 : n2) % rt;
  auto u = make_md_span(u_, gu, Kb{lo2 - xl2, hi2 + xh2}, Ib{lo0 - xl0, hi0 + xh0}, Jb{lo1 - xl1, hi1 + xh1}); (void)u;
  auto v = make_md_span(v_, gv, k, j, i); (void)v;
  auto c = make_md_span(c_, gc, k, i, j); (void)c;
  auto r = make_md_span(r_, gr, Kb{lo2 * rt, hi2 * rt + rt - 1}, j, i); (void)r;
  auto q = make_md_span(q_, gr, j, i, Kb{lo2 * rt, hi2 * rt + rt - 1}); (void)q;
  with_domain(Jb{lo1, lo1}, Ib{lo0, lo0}, Kb{lo2 * rt + st, hi2 * rt + rt - 1})(r = u.fine(rt, Ib{hi0, hi0}, Jb{hi1, hi1}));
  with_domain(Jb{hi1, hi1}, Ib{hi0, hi0}, Kb{lo2 * rt + st, hi2 * rt + rt - 1})(q = v.fine(rt, Ib{lo0, lo0}, Jb{lo1, lo1}));
  r.at(lo2 * rt, lo1, lo0) = c.at(hi2, hi0, hi1);
  }
struct Reg { Reg() {
  sim_register_harness("e08_02", 0, 0, e08_02<double>); sim_register_harness("e08_02", 1, 0, e08_02<float>);
  sim_register_harness("e08_10", 0, 0, e08_10<double>); sim_register_harness("e08_10", 1, 0, e08_10<float>);
  sim_register_harness("e08_18", 0, 0, e08_18<double>); sim_register_harness("e08_18", 1, 0, e08_18<float>);
  sim_register_harness("e08_26", 0, 0, e08_26<double>); sim_register_harness("e08_26", 1, 0, e08_26<float>);
  sim_register_harness("e08_34", 0, 0, e08_34<double>); sim_register_harness("e08_34", 1, 0, e08_34<float>);
  sim_register_harness("e08_42", 0, 0, e08_42<double>); sim_register_harness("e08_42", 1, 0, e08_42<float>);
  sim_register_harness("e08_50", 0, 0, e08_50<double>); sim_register_harness("e08_50", 1, 0, e08_50<float>);
  sim_register_harness("e08_58", 0, 0, e08_58<double>); sim_register_harness("e08_58", 1, 0, e08_58<float>);
  sim_register_harness("e08_s00", 0, 0, e08_s00<double>); sim_register_harness("e08_s00", 1, 0, e08_s00<float>);
  sim_register_harness("e08_s08", 0, 0, e08_s08<double>); sim_register_harness("e08_s08", 1, 0, e08_s08<float>);
  sim_register_harness("e08_s16", 0, 0, e08_s16<double>); sim_register_harness("e08_s16", 1, 0, e08_s16<float>);
  sim_register_harness("e08_s24", 0, 0, e08_s24<double>); sim_register_harness("e08_s24", 1, 0, e08_s24<float>);
  sim_register_harness("e08_s32", 0, 0, e08_s32<double>); sim_register_harness("e08_s32", 1, 0, e08_s32<float>);
  sim_register_harness("e08_s40", 0, 0, e08_s40<double>); sim_register_harness("e08_s40", 1, 0, e08_s40<float>);
  sim_register_harness("e08_s48", 0, 0, e08_s48<double>); sim_register_harness("e08_s48", 1, 0, e08_s48<float>);
  sim_register_harness("e08_s56", 0, 0, e08_s56<double>); sim_register_harness("e08_s56", 1, 0, e08_s56<float>);
  sim_register_harness("e08_f03", 0, 0, e08_f03<double>); sim_register_harness("e08_f03", 1, 0, e08_f03<float>);
  sim_register_harness("e08_f11", 0, 0, e08_f11<double>); sim_register_harness("e08_f11", 1, 0, e08_f11<float>);
} } reg;
}
