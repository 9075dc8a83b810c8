// generated by tools/gen_h.py
#include "md_device_span.hpp"
extern "C" void sim_register_harness(const char*, int, int, void (*)(void**));
namespace {
template <class T> static void e08_04(void** A) {
  const int lo0 = *(int*)A[0]; (void)lo0;
  const int hi0 = *(int*)A[1]; (void)hi0;
  const int lo1 = *(int*)A[2]; (void)lo1;
  const int hi1 = *(int*)A[3]; (void)hi1;
  const int lo2 = *(int*)A[4]; (void)lo2;
  const int hi2 = *(int*)A[5]; (void)hi2;
  const int s0 = *(int*)A[6]; (void)s0;
  const int s1 = *(int*)A[7]; (void)s1;
  const int s2 = *(int*)A[8]; (void)s2;
  const int gu = *(int*)A[9]; (void)gu;
  const int gv = *(int*)A[10]; (void)gv;
  const int gc = *(int*)A[11]; (void)gc;
  const int gr = *(int*)A[12]; (void)gr;
  const int xl0 = *(int*)A[13]; (void)xl0;
  const int xh0 = *(int*)A[14]; (void)xh0;
  const int xl1 = *(int*)A[15]; (void)xl1;
  const int xh1 = *(int*)A[16]; (void)xh1;
  const int xl2 = *(int*)A[17]; (void)xl2;
  const int xh2 = *(int*)A[18]; (void)xh2;
  const int yl0 = *(int*)A[19]; (void)yl0;
  const int yh0 = *(int*)A[20]; (void)yh0;
  const int yl1 = *(int*)A[21]; (void)yl1;
  const int yh1 = *(int*)A[22]; (void)yh1;
  const int yl2 = *(int*)A[23]; (void)yl2;
  const int yh2 = *(int*)A[24]; (void)yh2;
  const int n1 = *(int*)A[25]; (void)n1;
  const int n2 = *(int*)A[26]; (void)n2;
  const T a = *(T*)A[27]; (void)a;
  const T b = *(T*)A[28]; (void)b;
  const T h0 = *(T*)A[29]; (void)h0;
  const T h1 = *(T*)A[30]; (void)h1;
  const T h2 = *(T*)A[31]; (void)h2;
  T* u_ = (T*)A[32]; (void)u_;
  T* v_ = (T*)A[33]; (void)v_;
  T* c_ = (T*)A[34]; (void)c_;
  T* r_ = (T*)A[35]; (void)r_;
  T* q_ = (T*)A[36]; (void)q_;
  const auto i = Ib{lo0, hi0};
  auto u = make_md_span(u_, gu, Ib{lo0 - xl0, hi0 + xh0}); (void)u;
  auto v = make_md_span(v_, gv, i + 1); (void)v;
  auto c = make_md_span(c_, gc, i); (void)c;
  auto r = make_md_span(r_, gr, Ib{lo0 - yl0, hi0 + yh0}); (void)r;
  auto q = make_md_span(q_, gr, Ib{lo0 - xl0, hi0 + xh0}); (void)q;
  with_lhs_domain(r = ((u.grad_x(h0, down) + c.shift_x(n1)) * (3 + c)));
  }
template <class T> static void e08_12(void** A) {
  const int lo0 = *(int*)A[0]; (void)lo0;
  const int hi0 = *(int*)A[1]; (void)hi0;
  const int lo1 = *(int*)A[2]; (void)lo1;
  const int hi1 = *(int*)A[3]; (void)hi1;
  const int lo2 = *(int*)A[4]; (void)lo2;
  const int hi2 = *(int*)A[5]; (void)hi2;
  const int s0 = *(int*)A[6]; (void)s0;
  const int s1 = *(int*)A[7]; (void)s1;
  const int s2 = *(int*)A[8]; (void)s2;
  const int gu = *(int*)A[9]; (void)gu;
  const int gv = *(int*)A[10]; (void)gv;
  const int gc = *(int*)A[11]; (void)gc;
  const int gr = *(int*)A[12]; (void)gr;
  const int xl0 = *(int*)A[13]; (void)xl0;
  const int xh0 = *(int*)A[14]; (void)xh0;
  const int xl1 = *(int*)A[15]; (void)xl1;
  const int xh1 = *(int*)A[16]; (void)xh1;
  const int xl2 = *(int*)A[17]; (void)xl2;
  const int xh2 = *(int*)A[18]; (void)xh2;
  const int yl0 = *(int*)A[19]; (void)yl0;
  const int yh0 = *(int*)A[20]; (void)yh0;
  const int yl1 = *(int*)A[21]; (void)yl1;
  const int yh1 = *(int*)A[22]; (void)yh1;
  const int yl2 = *(int*)A[23]; (void)yl2;
  const int yh2 = *(int*)A[24]; (void)yh2;
  const int n1 = *(int*)A[25]; (void)n1;
  const int n2 = *(int*)A[26]; (void)n2;
  const T a = *(T*)A[27]; (void)a;
  const T b = *(T*)A[28]; (void)b;
  const T h0 = *(T*)A[29]; (void)h0;
  const T h1 = *(T*)A[30]; (void)h1;
  const T h2 = *(T*)A[31]; (void)h2;
  T* u_ = (T*)A[32]; (void)u_;
  T* v_ = (T*)A[33]; (void)v_;
  T* c_ = (T*)A[34]; (void)c_;
  T* r_ = (T*)A[35]; (void)r_;
  T* q_ = (T*)A[36]; (void)q_;
  const auto i = Ib{lo0, hi0};
  const auto j = Jb{lo1, hi1};
  auto u = make_md_span(u_, gu, Ib{lo0 - xl0, hi0 + xh0}, Jb{lo1 - xl1, hi1 + xh1}); (void)u;
  auto v = make_md_span(v_, gv, i, j + 1); (void)v;
  auto c = make_md_span(c_, gc, i + 1, j); (void)c;
  auto r = make_md_span(r_, gr, Jb{lo1 - yl1, hi1 + yh1}, Ib{lo0 - yl0, hi0 + yh0}); (void)r;
  auto q = make_md_span(q_, gr, Ib{lo0 - xl0, hi0 + xh0}, Jb{lo1 - xl1, hi1 + xh1}); (void)q;
  with_domain(j, i)(r = (3 - (v.grad_x(h0, down) / -1)));
  }
template <class T> static void e08_20(void** A) {
  const int lo0 = *(int*)A[0]; (void)lo0;
  const int hi0 = *(int*)A[1]; (void)hi0;
  const int lo1 = *(int*)A[2]; (void)lo1;
  const int hi1 = *(int*)A[3]; (void)hi1;
  const int lo2 = *(int*)A[4]; (void)lo2;
  const int hi2 = *(int*)A[5]; (void)hi2;
  const int s0 = *(int*)A[6]; (void)s0;
  const int s1 = *(int*)A[7]; (void)s1;
  const int s2 = *(int*)A[8]; (void)s2;
  const int gu = *(int*)A[9]; (void)gu;
  const int gv = *(int*)A[10]; (void)gv;
  const int gc = *(int*)A[11]; (void)gc;
  const int gr = *(int*)A[12]; (void)gr;
  const int xl0 = *(int*)A[13]; (void)xl0;
  const int xh0 = *(int*)A[14]; (void)xh0;
  const int xl1 = *(int*)A[15]; (void)xl1;
  const int xh1 = *(int*)A[16]; (void)xh1;
  const int xl2 = *(int*)A[17]; (void)xl2;
  const int xh2 = *(int*)A[18]; (void)xh2;
  const int yl0 = *(int*)A[19]; (void)yl0;
  const int yh0 = *(int*)A[20]; (void)yh0;
  const int yl1 = *(int*)A[21]; (void)yl1;
  const int yh1 = *(int*)A[22]; (void)yh1;
  const int yl2 = *(int*)A[23]; (void)yl2;
  const int yh2 = *(int*)A[24]; (void)yh2;
  const int n1 = *(int*)A[25]; (void)n1;
  const int n2 = *(int*)A[26]; (void)n2;
  const T a = *(T*)A[27]; (void)a;
  const T b = *(T*)A[28]; (void)b;
  const T h0 = *(T*)A[29]; (void)h0;
  const T h1 = *(T*)A[30]; (void)h1;
  const T h2 = *(T*)A[31]; (void)h2;
  T* u_ = (T*)A[32]; (void)u_;
  T* v_ = (T*)A[33]; (void)v_;
  T* c_ = (T*)A[34]; (void)c_;
  T* r_ = (T*)A[35]; (void)r_;
  T* q_ = (T*)A[36]; (void)q_;
  const auto i = Ib{lo0, hi0};
  const auto j = Jb{lo1, hi1};
  auto u = make_md_span(u_, gu, Ib{lo0 - xl0, hi0 + xh0 + 1}, Jb{lo1 - xl1, hi1 + xh1}); (void)u;
  auto v = make_md_span(v_, gv, j, i); (void)v;
  auto c = make_md_span(c_, gc, j, i + 1); (void)c;
  auto r = make_md_span(r_, gr, Jb{lo1 - yl1, hi1 + yh1}, Ib{lo0 - yl0, hi0 + yh0}); (void)r;
  auto q = make_md_span(q_, gr, Ib{lo0 - xl0, hi0 + xh0}, Jb{lo1 - xl1, hi1 + xh1}); (void)q;
  with_lhs_domain(r = v.shift_x());
  }
template <class T> static void e08_28(void** A) {
  const int lo0 = *(int*)A[0]; (void)lo0;
  const int hi0 = *(int*)A[1]; (void)hi0;
  const int lo1 = *(int*)A[2]; (void)lo1;
  const int hi1 = *(int*)A[3]; (void)hi1;
  const int lo2 = *(int*)A[4]; (void)lo2;
  const int hi2 = *(int*)A[5]; (void)hi2;
  const int s0 = *(int*)A[6]; (void)s0;
  const int s1 = *(int*)A[7]; (void)s1;
  const int s2 = *(int*)A[8]; (void)s2;
  const int gu = *(int*)A[9]; (void)gu;
  const int gv = *(int*)A[10]; (void)gv;
  const int gc = *(int*)A[11]; (void)gc;
  const int gr = *(int*)A[12]; (void)gr;
  const int xl0 = *(int*)A[13]; (void)xl0;
  const int xh0 = *(int*)A[14]; (void)xh0;
  const int xl1 = *(int*)A[15]; (void)xl1;
  const int xh1 = *(int*)A[16]; (void)xh1;
  const int xl2 = *(int*)A[17]; (void)xl2;
  const int xh2 = *(int*)A[18]; (void)xh2;
  const int yl0 = *(int*)A[19]; (void)yl0;
  const int yh0 = *(int*)A[20]; (void)yh0;
  const int yl1 = *(int*)A[21]; (void)yl1;
  const int yh1 = *(int*)A[22]; (void)yh1;
  const int yl2 = *(int*)A[23]; (void)yl2;
  const int yh2 = *(int*)A[24]; (void)yh2;
  const int n1 = *(int*)A[25]; (void)n1;
  const int n2 = *(int*)A[26]; (void)n2;
  const T a = *(T*)A[27]; (void)a;
  const T b = *(T*)A[28]; (void)b;
  const T h0 = *(T*)A[29]; (void)h0;
  const T h1 = *(T*)A[30]; (void)h1;
  const T h2 = *(T*)A[31]; (void)h2;
  T* u_ = (T*)A[32]; (void)u_;
  T* v_ = (T*)A[33]; (void)v_;
  T* c_ = (T*)A[34]; (void)c_;
  T* r_ = (T*)A[35]; (void)r_;
  T* q_ = (T*)A[36]; (void)q_;
  const auto i = Ib{lo0, hi0};
  const auto j = Jb{lo1, hi1};
  const auto k = Kb{lo2, hi2};
  auto u = make_md_span(u_, gu, Jb{lo1 - xl1, hi1 + xh1}, Ib{lo0 - xl0, hi0 + xh0}, Kb{lo2 - xl2, hi2 + xh2}); (void)u;
  auto v = make_md_span(v_, gv, j, i, k); (void)v;
  auto c = make_md_span(c_, gc, i, j, k); (void)c;
  auto r = make_md_span(r_, gr, Jb{lo1 - yl1, hi1 + yh1}, Kb{lo2 - yl2, hi2 + yh2}, Ib{lo0 - yl0, hi0 + yh0 + 1}); (void)r;
  auto q = make_md_span(q_, gr, Kb{lo2 - xl2, hi2 + xh2}, Jb{lo1 - xl1, hi1 + xh1}, Ib{lo0 - xl0, hi0 + xh0 + 1}); (void)q;
  with_domain(k, i, j)(r = (v.shift_x(2) * -1));
  }
template <class T> static void e08_36(void** A) {
  const int lo0 = *(int*)A[0]; (void)lo0;
  const int hi0 = *(int*)A[1]; (void)hi0;
  const int lo1 = *(int*)A[2]; (void)lo1;
  const int hi1 = *(int*)A[3]; (void)hi1;
  const int lo2 = *(int*)A[4]; (void)lo2;
  const int hi2 = *(int*)A[5]; (void)hi2;
  const int s0 = *(int*)A[6]; (void)s0;
  const int s1 = *(int*)A[7]; (void)s1;
  const int s2 = *(int*)A[8]; (void)s2;
  const int gu = *(int*)A[9]; (void)gu;
  const int gv = *(int*)A[10]; (void)gv;
  const int gc = *(int*)A[11]; (void)gc;
  const int gr = *(int*)A[12]; (void)gr;
  const int xl0 = *(int*)A[13]; (void)xl0;
  const int xh0 = *(int*)A[14]; (void)xh0;
  const int xl1 = *(int*)A[15]; (void)xl1;
  const int xh1 = *(int*)A[16]; (void)xh1;
  const int xl2 = *(int*)A[17]; (void)xl2;
  const int xh2 = *(int*)A[18]; (void)xh2;
  const int yl0 = *(int*)A[19]; (void)yl0;
  const int yh0 = *(int*)A[20]; (void)yh0;
  const int yl1 = *(int*)A[21]; (void)yl1;
  const int yh1 = *(int*)A[22]; (void)yh1;
  const int yl2 = *(int*)A[23]; (void)yl2;
  const int yh2 = *(int*)A[24]; (void)yh2;
  const int n1 = *(int*)A[25]; (void)n1;
  const int n2 = *(int*)A[26]; (void)n2;
  const T a = *(T*)A[27]; (void)a;
  const T b = *(T*)A[28]; (void)b;
  const T h0 = *(T*)A[29]; (void)h0;
  const T h1 = *(T*)A[30]; (void)h1;
  const T h2 = *(T*)A[31]; (void)h2;
  T* u_ = (T*)A[32]; (void)u_;
  T* v_ = (T*)A[33]; (void)v_;
  T* c_ = (T*)A[34]; (void)c_;
  T* r_ = (T*)A[35]; (void)r_;
  T* q_ = (T*)A[36]; (void)q_;
  const auto i = Ib{lo0, hi0};
  const auto j = Jb{lo1, hi1};
  const auto k = Kb{lo2, hi2};
  auto u = make_md_span(u_, gu, Jb{lo1 - xl1, hi1 + xh1}, Ib{lo0 - xl0, hi0 + xh0}, Kb{lo2 - xl2, hi2 + xh2}); (void)u;
  auto v = make_md_span(v_, gv, j, i, k); (void)v;
  auto c = make_md_span(c_, gc, k, i, j + 1); (void)c;
  auto r = make_md_span(r_, gr, Kb{lo2 - yl2, hi2 + yh2}, Ib{lo0 - yl0, hi0 + yh0 + 1}, Jb{lo1 - yl1, hi1 + yh1}); (void)r;
  auto q = make_md_span(q_, gr, Jb{lo1 - xl1, hi1 + xh1}, Kb{lo2 - xl2, hi2 + xh2}, Ib{lo0 - xl0, hi0 + xh0}); (void)q;
  with_domain(Ib{lo0, hi0, s0}, Kb{lo2, hi2, s2}, Jb{lo1, hi1, s1})(r = ((a - v) + (T(0.5) * v.shift_y(-1))));
  }
template <class T> static void e08_44(void** A) {
  const int lo0 = *(int*)A[0]; (void)lo0;
  const int hi0 = *(int*)A[1]; (void)hi0;
  const int lo1 = *(int*)A[2]; (void)lo1;
  const int hi1 = *(int*)A[3]; (void)hi1;
  const int lo2 = *(int*)A[4]; (void)lo2;
  const int hi2 = *(int*)A[5]; (void)hi2;
  const int s0 = *(int*)A[6]; (void)s0;
  const int s1 = *(int*)A[7]; (void)s1;
  const int s2 = *(int*)A[8]; (void)s2;
  const int gu = *(int*)A[9]; (void)gu;
  const int gv = *(int*)A[10]; (void)gv;
  const int gc = *(int*)A[11]; (void)gc;
  const int gr = *(int*)A[12]; (void)gr;
  const int xl0 = *(int*)A[13]; (void)xl0;
  const int xh0 = *(int*)A[14]; (void)xh0;
  const int xl1 = *(int*)A[15]; (void)xl1;
  const int xh1 = *(int*)A[16]; (void)xh1;
  const int xl2 = *(int*)A[17]; (void)xl2;
  const int xh2 = *(int*)A[18]; (void)xh2;
  const int yl0 = *(int*)A[19]; (void)yl0;
  const int yh0 = *(int*)A[20]; (void)yh0;
  const int yl1 = *(int*)A[21]; (void)yl1;
  const int yh1 = *(int*)A[22]; (void)yh1;
  const int yl2 = *(int*)A[23]; (void)yl2;
  const int yh2 = *(int*)A[24]; (void)yh2;
  const int n1 = *(int*)A[25]; (void)n1;
  const int n2 = *(int*)A[26]; (void)n2;
  const T a = *(T*)A[27]; (void)a;
  const T b = *(T*)A[28]; (void)b;
  const T h0 = *(T*)A[29]; (void)h0;
  const T h1 = *(T*)A[30]; (void)h1;
  const T h2 = *(T*)A[31]; (void)h2;
  T* u_ = (T*)A[32]; (void)u_;
  T* v_ = (T*)A[33]; (void)v_;
  T* c_ = (T*)A[34]; (void)c_;
  T* r_ = (T*)A[35]; (void)r_;
  T* q_ = (T*)A[36]; (void)q_;
  const auto i = Ib{lo0, hi0};
  const auto k = Kb{lo2, hi2};
  auto u = make_md_span(u_, gu, Kb{lo2 - xl2, hi2 + xh2}, Ib{lo0 - xl0, hi0 + xh0}); (void)u;
  auto v = make_md_span(v_, gv, i, k); (void)v;
  auto c = make_md_span(c_, gc, i, k + 1); (void)c;
  auto r = make_md_span(r_, gr, Ib{lo0 - yl0, hi0 + yh0}, Kb{lo2 - yl2, hi2 + yh2}); (void)r;
  auto q = make_md_span(q_, gr, Kb{lo2 - xl2, hi2 + xh2}, Ib{lo0 - xl0, hi0 + xh0}); (void)q;
  with_domain(k, i)(r = (((u.grad_z(h2, down) + u.shift_xz(1, n2)) * (T(0.5) + v.shift_x(-1))) - 1.5));
  }
template <class T> static void e08_52(void** A) {
  const int lo0 = *(int*)A[0]; (void)lo0;
  const int hi0 = *(int*)A[1]; (void)hi0;
  const int lo1 = *(int*)A[2]; (void)lo1;
  const int hi1 = *(int*)A[3]; (void)hi1;
  const int lo2 = *(int*)A[4]; (void)lo2;
  const int hi2 = *(int*)A[5]; (void)hi2;
  const int s0 = *(int*)A[6]; (void)s0;
  const int s1 = *(int*)A[7]; (void)s1;
  const int s2 = *(int*)A[8]; (void)s2;
  const int gu = *(int*)A[9]; (void)gu;
  const int gv = *(int*)A[10]; (void)gv;
  const int gc = *(int*)A[11]; (void)gc;
  const int gr = *(int*)A[12]; (void)gr;
  const int xl0 = *(int*)A[13]; (void)xl0;
  const int xh0 = *(int*)A[14]; (void)xh0;
  const int xl1 = *(int*)A[15]; (void)xl1;
  const int xh1 = *(int*)A[16]; (void)xh1;
  const int xl2 = *(int*)A[17]; (void)xl2;
  const int xh2 = *(int*)A[18]; (void)xh2;
  const int yl0 = *(int*)A[19]; (void)yl0;
  const int yh0 = *(int*)A[20]; (void)yh0;
  const int yl1 = *(int*)A[21]; (void)yl1;
  const int yh1 = *(int*)A[22]; (void)yh1;
  const int yl2 = *(int*)A[23]; (void)yl2;
  const int yh2 = *(int*)A[24]; (void)yh2;
  const int n1 = *(int*)A[25]; (void)n1;
  const int n2 = *(int*)A[26]; (void)n2;
  const T a = *(T*)A[27]; (void)a;
  const T b = *(T*)A[28]; (void)b;
  const T h0 = *(T*)A[29]; (void)h0;
  const T h1 = *(T*)A[30]; (void)h1;
  const T h2 = *(T*)A[31]; (void)h2;
  T* u_ = (T*)A[32]; (void)u_;
  T* v_ = (T*)A[33]; (void)v_;
  T* c_ = (T*)A[34]; (void)c_;
  T* r_ = (T*)A[35]; (void)r_;
  T* q_ = (T*)A[36]; (void)q_;
  const auto i = Ib{lo0, hi0};
  auto u = make_md_span(u_, gu, Ib{lo0 - xl0, hi0 + xh0}); (void)u;
  auto v = make_md_span(v_, gv, i); (void)v;
  auto c = make_md_span(c_, gc, i); (void)c;
  auto r = make_md_span(r_, gr, Ib{lo0 - yl0, hi0 + yh0}); (void)r;
  auto q = make_md_span(q_, gr, Ib{lo0 - xl0, hi0 + xh0}); (void)q;
  with_domain(i)(r = ((3 / (c + 2)) + u.grad_x(h0, down)));
  }
template <class T> static void e08_60(void** A) {
  const int lo0 = *(int*)A[0]; (void)lo0;
  const int hi0 = *(int*)A[1]; (void)hi0;
  const int lo1 = *(int*)A[2]; (void)lo1;
  const int hi1 = *(int*)A[3]; (void)hi1;
  const int lo2 = *(int*)A[4]; (void)lo2;
  const int hi2 = *(int*)A[5]; (void)hi2;
  const int s0 = *(int*)A[6]; (void)s0;
  const int s1 = *(int*)A[7]; (void)s1;
  const int s2 = *(int*)A[8]; (void)s2;
  const int gu = *(int*)A[9]; (void)gu;
  const int gv = *(int*)A[10]; (void)gv;
  const int gc = *(int*)A[11]; (void)gc;
  const int gr = *(int*)A[12]; (void)gr;
  const int xl0 = *(int*)A[13]; (void)xl0;
  const int xh0 = *(int*)A[14]; (void)xh0;
  const int xl1 = *(int*)A[15]; (void)xl1;
  const int xh1 = *(int*)A[16]; (void)xh1;
  const int xl2 = *(int*)A[17]; (void)xl2;
  const int xh2 = *(int*)A[18]; (void)xh2;
  const int yl0 = *(int*)A[19]; (void)yl0;
  const int yh0 = *(int*)A[20]; (void)yh0;
  const int yl1 = *(int*)A[21]; (void)yl1;
  const int yh1 = *(int*)A[22]; (void)yh1;
  const int yl2 = *(int*)A[23]; (void)yl2;
  const int yh2 = *(int*)A[24]; (void)yh2;
  const int n1 = *(int*)A[25]; (void)n1;
  const int n2 = *(int*)A[26]; (void)n2;
  const T a = *(T*)A[27]; (void)a;
  const T b = *(T*)A[28]; (void)b;
  const T h0 = *(T*)A[29]; (void)h0;
  const T h1 = *(T*)A[30]; (void)h1;
  const T h2 = *(T*)A[31]; (void)h2;
  T* u_ = (T*)A[32]; (void)u_;
  T* v_ = (T*)A[33]; (void)v_;
  T* c_ = (T*)A[34]; (void)c_;
  T* r_ = (T*)A[35]; (void)r_;
  T* q_ = (T*)A[36]; (void)q_;
  const auto i = Ib{lo0, hi0};
  const auto j = Jb{lo1, hi1};
  const auto k = Kb{lo2, hi2};
  auto u = make_md_span(u_, gu, Kb{lo2 - xl2, hi2 + xh2}, Ib{lo0 - xl0, hi0 + xh0}, Jb{lo1 - xl1, hi1 + xh1}); (void)u;
  auto v = make_md_span(v_, gv, k, i, j); (void)v;
  auto c = make_md_span(c_, gc, k, i + 1, j); (void)c;
  auto r = make_md_span(r_, gr, Kb{lo2 - yl2, hi2 + yh2}, Jb{lo1 - yl1, hi1 + yh1}, Ib{lo0 - yl0, hi0 + yh0}); (void)r;
  auto q = make_md_span(q_, gr, Kb{lo2 - xl2, hi2 + xh2}, Ib{lo0 - xl0, hi0 + xh0}, Jb{lo1 - xl1, hi1 + xh1}); (void)q;
  with_domain(j, k, i)(q = (v.shift_yz(-1, -1) / (3 * c)), r = 2 * q + (v.shift_yz(1, 2) * 2));
  }
template <class T> static void e08_s02(void** A) {
  const int lo0 = *(int*)A[0]; (void)lo0;
  const int hi0 = *(int*)A[1]; (void)hi0;
  const int lo1 = *(int*)A[2]; (void)lo1;
  const int hi1 = *(int*)A[3]; (void)hi1;
  const int lo2 = *(int*)A[4]; (void)lo2;
  const int hi2 = *(int*)A[5]; (void)hi2;
  const int s0 = *(int*)A[6]; (void)s0;
  const int s1 = *(int*)A[7]; (void)s1;
  const int s2 = *(int*)A[8]; (void)s2;
  const int gu = *(int*)A[9]; (void)gu;
  const int gv = *(int*)A[10]; (void)gv;
  const int gc = *(int*)A[11]; (void)gc;
  const int gr = *(int*)A[12]; (void)gr;
  const int xl0 = *(int*)A[13]; (void)xl0;
  const int xh0 = *(int*)A[14]; (void)xh0;
  const int xl1 = *(int*)A[15]; (void)xl1;
  const int xh1 = *(int*)A[16]; (void)xh1;
  const int xl2 = *(int*)A[17]; (void)xl2;
  const int xh2 = *(int*)A[18]; (void)xh2;
  const int yl0 = *(int*)A[19]; (void)yl0;
  const int yh0 = *(int*)A[20]; (void)yh0;
  const int yl1 = *(int*)A[21]; (void)yl1;
  const int yh1 = *(int*)A[22]; (void)yh1;
  const int yl2 = *(int*)A[23]; (void)yl2;
  const int yh2 = *(int*)A[24]; (void)yh2;
  const int n1 = *(int*)A[25]; (void)n1;
  const int n2 = *(int*)A[26]; (void)n2;
  const T a = *(T*)A[27]; (void)a;
  const T b = *(T*)A[28]; (void)b;
  const T h0 = *(T*)A[29]; (void)h0;
  const T h1 = *(T*)A[30]; (void)h1;
  const T h2 = *(T*)A[31]; (void)h2;
  T* u_ = (T*)A[32]; (void)u_;
  T* v_ = (T*)A[33]; (void)v_;
  T* c_ = (T*)A[34]; (void)c_;
  T* r_ = (T*)A[35]; (void)r_;
  T* q_ = (T*)A[36]; (void)q_;
  const auto i = Ib{lo0 + 1, hi0 - 1}.expand(1);
  const auto j = Jb{lo1 + 2, hi1} + -2;
  auto u = make_md_span(u_, gu, Jb{lo1 - xl1, hi1 + xh1}, Ib{lo0 - xl0, hi0 + xh0 + 1}); (void)u;
  auto v = make_md_span(v_, gv, i, j); (void)v;
  auto c = make_md_span(c_, gc, j, i); (void)c;
  auto r = make_md_span(r_, gr, Ib{lo0 - yl0, hi0 + yh0}, Jb{lo1 - yl1, hi1 + yh1}); (void)r;
  auto q = make_md_span(q_, gr, Jb{lo1 - xl1, hi1 + xh1}, Ib{lo0 - xl0, hi0 + xh0}); (void)q;
  auto e = b * u.grad_y(h1) + b * v.grad_x(h0) + 1.5 * c.grad_y(h1, down);
  with_domain(j, i)(r = e, q = e - a);
  }
template <class T> static void e08_s10(void** A) {
  const int lo0 = *(int*)A[0]; (void)lo0;
  const int hi0 = *(int*)A[1]; (void)hi0;
  const int lo1 = *(int*)A[2]; (void)lo1;
  const int hi1 = *(int*)A[3]; (void)hi1;
  const int lo2 = *(int*)A[4]; (void)lo2;
  const int hi2 = *(int*)A[5]; (void)hi2;
  const int s0 = *(int*)A[6]; (void)s0;
  const int s1 = *(int*)A[7]; (void)s1;
  const int s2 = *(int*)A[8]; (void)s2;
  const int gu = *(int*)A[9]; (void)gu;
  const int gv = *(int*)A[10]; (void)gv;
  const int gc = *(int*)A[11]; (void)gc;
  const int gr = *(int*)A[12]; (void)gr;
  const int xl0 = *(int*)A[13]; (void)xl0;
  const int xh0 = *(int*)A[14]; (void)xh0;
  const int xl1 = *(int*)A[15]; (void)xl1;
  const int xh1 = *(int*)A[16]; (void)xh1;
  const int xl2 = *(int*)A[17]; (void)xl2;
  const int xh2 = *(int*)A[18]; (void)xh2;
  const int yl0 = *(int*)A[19]; (void)yl0;
  const int yh0 = *(int*)A[20]; (void)yh0;
  const int yl1 = *(int*)A[21]; (void)yl1;
  const int yh1 = *(int*)A[22]; (void)yh1;
  const int yl2 = *(int*)A[23]; (void)yl2;
  const int yh2 = *(int*)A[24]; (void)yh2;
  const int n1 = *(int*)A[25]; (void)n1;
  const int n2 = *(int*)A[26]; (void)n2;
  const T a = *(T*)A[27]; (void)a;
  const T b = *(T*)A[28]; (void)b;
  const T h0 = *(T*)A[29]; (void)h0;
  const T h1 = *(T*)A[30]; (void)h1;
  const T h2 = *(T*)A[31]; (void)h2;
  T* u_ = (T*)A[32]; (void)u_;
  T* v_ = (T*)A[33]; (void)v_;
  T* c_ = (T*)A[34]; (void)c_;
  T* r_ = (T*)A[35]; (void)r_;
  T* q_ = (T*)A[36]; (void)q_;
  const auto i = Ib{lo0, hi0};
  const auto j = Jb{lo1, hi1};
  const auto k = Kb{lo2, hi2};
  auto u = make_md_span(u_, gu, Kb{lo2 - xl2, hi2 + xh2 + 1}, Ib{lo0 - xl0, hi0 + xh0}, Jb{lo1 - xl1, hi1 + xh1}); (void)u;
  auto v = make_md_span(v_, gv, k, i, j); (void)v;
  auto c = make_md_span(c_, gc, i, j, k); (void)c;
  auto r = make_md_span(r_, gr, Kb{lo2 - yl2, hi2 + yh2}, Ib{lo0 - yl0, hi0 + yh0}, Jb{lo1 - yl1, hi1 + yh1}); (void)r;
  auto q = make_md_span(q_, gr, Ib{lo0 - xl0, hi0 + xh0}, Kb{lo2 - xl2, hi2 + xh2}, Jb{lo1 - xl1, hi1 + xh1}); (void)q;
  with_domain(k, j, i)(r = 1.5 * u.grad_y(h1, down) + 3 * v.grad_x(h0, down) + b * c.shift_x(n1));
  }
template <class T> static void e08_s18(void** A) {
  const int lo0 = *(int*)A[0]; (void)lo0;
  const int hi0 = *(int*)A[1]; (void)hi0;
  const int lo1 = *(int*)A[2]; (void)lo1;
  const int hi1 = *(int*)A[3]; (void)hi1;
  const int lo2 = *(int*)A[4]; (void)lo2;
  const int hi2 = *(int*)A[5]; (void)hi2;
  const int s0 = *(int*)A[6]; (void)s0;
  const int s1 = *(int*)A[7]; (void)s1;
  const int s2 = *(int*)A[8]; (void)s2;
  const int gu = *(int*)A[9]; (void)gu;
  const int gv = *(int*)A[10]; (void)gv;
  const int gc = *(int*)A[11]; (void)gc;
  const int gr = *(int*)A[12]; (void)gr;
  const int xl0 = *(int*)A[13]; (void)xl0;
  const int xh0 = *(int*)A[14]; (void)xh0;
  const int xl1 = *(int*)A[15]; (void)xl1;
  const int xh1 = *(int*)A[16]; (void)xh1;
  const int xl2 = *(int*)A[17]; (void)xl2;
  const int xh2 = *(int*)A[18]; (void)xh2;
  const int yl0 = *(int*)A[19]; (void)yl0;
  const int yh0 = *(int*)A[20]; (void)yh0;
  const int yl1 = *(int*)A[21]; (void)yl1;
  const int yh1 = *(int*)A[22]; (void)yh1;
  const int yl2 = *(int*)A[23]; (void)yl2;
  const int yh2 = *(int*)A[24]; (void)yh2;
  const int n1 = *(int*)A[25]; (void)n1;
  const int n2 = *(int*)A[26]; (void)n2;
  const T a = *(T*)A[27]; (void)a;
  const T b = *(T*)A[28]; (void)b;
  const T h0 = *(T*)A[29]; (void)h0;
  const T h1 = *(T*)A[30]; (void)h1;
  const T h2 = *(T*)A[31]; (void)h2;
  T* u_ = (T*)A[32]; (void)u_;
  T* v_ = (T*)A[33]; (void)v_;
  T* c_ = (T*)A[34]; (void)c_;
  T* r_ = (T*)A[35]; (void)r_;
  T* q_ = (T*)A[36]; (void)q_;
  const auto i = Ib{lo0 - n1, hi0 - n1}.shift(n1);
  const auto j = (Jb{lo1 + 2, hi1 - 3} - 2) + 3;
  const auto k = Kb{lo2 + 1, hi2 - 1}.expand(1);
  auto u = make_md_span(u_, gu, Jb{lo1 - xl1, hi1 + xh1}, Kb{lo2 - xl2, hi2 + xh2}, Ib{lo0 - xl0, hi0 + xh0}); (void)u;
  auto v = make_md_span(v_, gv, j, k, i); (void)v;
  auto c = make_md_span(c_, gc, k, j, i); (void)c;
  auto r = make_md_span(r_, gr, Jb{lo1 - yl1, hi1 + yh1}, Ib{lo0 - yl0, hi0 + yh0}, Kb{lo2 - yl2, hi2 + yh2}); (void)r;
  auto q = make_md_span(q_, gr, Kb{lo2 - xl2, hi2 + xh2}, Ib{lo0 - xl0, hi0 + xh0}, Jb{lo1 - xl1, hi1 + xh1}); (void)q;
  with_domain(i, j, k)(r = 1.5 * u.grad_y(h1) + 1.5 * v.shift_xy(n1, n2) + 1.5 * c.shift_x(n1));
  }
template <class T> static void e08_s26(void** A) {
  const int lo0 = *(int*)A[0]; (void)lo0;
  const int hi0 = *(int*)A[1]; (void)hi0;
  const int lo1 = *(int*)A[2]; (void)lo1;
  const int hi1 = *(int*)A[3]; (void)hi1;
  const int lo2 = *(int*)A[4]; (void)lo2;
  const int hi2 = *(int*)A[5]; (void)hi2;
  const int s0 = *(int*)A[6]; (void)s0;
  const int s1 = *(int*)A[7]; (void)s1;
  const int s2 = *(int*)A[8]; (void)s2;
  const int gu = *(int*)A[9]; (void)gu;
  const int gv = *(int*)A[10]; (void)gv;
  const int gc = *(int*)A[11]; (void)gc;
  const int gr = *(int*)A[12]; (void)gr;
  const int xl0 = *(int*)A[13]; (void)xl0;
  const int xh0 = *(int*)A[14]; (void)xh0;
  const int xl1 = *(int*)A[15]; (void)xl1;
  const int xh1 = *(int*)A[16]; (void)xh1;
  const int xl2 = *(int*)A[17]; (void)xl2;
  const int xh2 = *(int*)A[18]; (void)xh2;
  const int yl0 = *(int*)A[19]; (void)yl0;
  const int yh0 = *(int*)A[20]; (void)yh0;
  const int yl1 = *(int*)A[21]; (void)yl1;
  const int yh1 = *(int*)A[22]; (void)yh1;
  const int yl2 = *(int*)A[23]; (void)yl2;
  const int yh2 = *(int*)A[24]; (void)yh2;
  const int n1 = *(int*)A[25]; (void)n1;
  const int n2 = *(int*)A[26]; (void)n2;
  const T a = *(T*)A[27]; (void)a;
  const T b = *(T*)A[28]; (void)b;
  const T h0 = *(T*)A[29]; (void)h0;
  const T h1 = *(T*)A[30]; (void)h1;
  const T h2 = *(T*)A[31]; (void)h2;
  T* u_ = (T*)A[32]; (void)u_;
  T* v_ = (T*)A[33]; (void)v_;
  T* c_ = (T*)A[34]; (void)c_;
  T* r_ = (T*)A[35]; (void)r_;
  T* q_ = (T*)A[36]; (void)q_;
  const auto i = Ib{lo0, hi0};
  const auto j = Jb{lo1, hi1};
  const auto k = Kb{lo2, hi2};
  auto u = make_md_span(u_, gu, Ib{lo0 - xl0, hi0 + xh0}, Kb{lo2 - xl2, hi2 + xh2}, Jb{lo1 - xl1, hi1 + xh1}); (void)u;
  auto v = make_md_span(v_, gv, k + 1, i, j); (void)v;
  auto c = make_md_span(c_, gc, k, i, j); (void)c;
  auto r = make_md_span(r_, gr, Ib{lo0 - yl0, hi0 + yh0}, Jb{lo1 - yl1, hi1 + yh1}, Kb{lo2 - yl2, hi2 + yh2 + 1}); (void)r;
  auto q = make_md_span(q_, gr, Jb{lo1 - xl1, hi1 + xh1}, Kb{lo2 - xl2, hi2 + xh2}, Ib{lo0 - xl0, hi0 + xh0}); (void)q;
  with_domain(k, i, j)(q = u.grad_z(h2, down), r = v.shift_xz() + c.shift_yz());
  }
template <class T> static void e08_s34(void** A) {
  const int lo0 = *(int*)A[0]; (void)lo0;
  const int hi0 = *(int*)A[1]; (void)hi0;
  const int lo1 = *(int*)A[2]; (void)lo1;
  const int hi1 = *(int*)A[3]; (void)hi1;
  const int lo2 = *(int*)A[4]; (void)lo2;
  const int hi2 = *(int*)A[5]; (void)hi2;
  const int s0 = *(int*)A[6]; (void)s0;
  const int s1 = *(int*)A[7]; (void)s1;
  const int s2 = *(int*)A[8]; (void)s2;
  const int gu = *(int*)A[9]; (void)gu;
  const int gv = *(int*)A[10]; (void)gv;
  const int gc = *(int*)A[11]; (void)gc;
  const int gr = *(int*)A[12]; (void)gr;
  const int xl0 = *(int*)A[13]; (void)xl0;
  const int xh0 = *(int*)A[14]; (void)xh0;
  const int xl1 = *(int*)A[15]; (void)xl1;
  const int xh1 = *(int*)A[16]; (void)xh1;
  const int xl2 = *(int*)A[17]; (void)xl2;
  const int xh2 = *(int*)A[18]; (void)xh2;
  const int yl0 = *(int*)A[19]; (void)yl0;
  const int yh0 = *(int*)A[20]; (void)yh0;
  const int yl1 = *(int*)A[21]; (void)yl1;
  const int yh1 = *(int*)A[22]; (void)yh1;
  const int yl2 = *(int*)A[23]; (void)yl2;
  const int yh2 = *(int*)A[24]; (void)yh2;
  const int n1 = *(int*)A[25]; (void)n1;
  const int n2 = *(int*)A[26]; (void)n2;
  const T a = *(T*)A[27]; (void)a;
  const T b = *(T*)A[28]; (void)b;
  const T h0 = *(T*)A[29]; (void)h0;
  const T h1 = *(T*)A[30]; (void)h1;
  const T h2 = *(T*)A[31]; (void)h2;
  T* u_ = (T*)A[32]; (void)u_;
  T* v_ = (T*)A[33]; (void)v_;
  T* c_ = (T*)A[34]; (void)c_;
  T* r_ = (T*)A[35]; (void)r_;
  T* q_ = (T*)A[36]; (void)q_;
  const auto i = Ib{lo0, hi0 + 1, 1, false};
  const auto j = Jb{lo1, hi1, 3}.unit_stride();
  const auto k = Kb{lo2 - n1, hi2 - n1}.shift(n1);
  auto u = make_md_span(u_, gu, Jb{lo1 - xl1, hi1 + xh1}, Ib{lo0 - xl0, hi0 + xh0}, Kb{lo2 - xl2, hi2 + xh2}); (void)u;
  auto v = make_md_span(v_, gv, i, j, k); (void)v;
  auto c = make_md_span(c_, gc, j, i, k); (void)c;
  auto r = make_md_span(r_, gr, Ib{lo0 - yl0, hi0 + yh0}, Jb{lo1 - yl1, hi1 + yh1}, Kb{lo2 - yl2, hi2 + yh2}); (void)r;
  auto q = make_md_span(q_, gr, Jb{lo1 - xl1, hi1 + xh1}, Kb{lo2 - xl2, hi2 + xh2}, Ib{lo0 - xl0, hi0 + xh0}); (void)q;
  with_domain(k, i, j)(r = -1 * u.shift_yz(n1, n2) + 2 * v.shift_xz(n1, n2) + 3 * c.shift_xy(n1, n2));
  }
template <class T> static void e08_s42(void** A) {
  const int lo0 = *(int*)A[0]; (void)lo0;
  const int hi0 = *(int*)A[1]; (void)hi0;
  const int lo1 = *(int*)A[2]; (void)lo1;
  const int hi1 = *(int*)A[3]; (void)hi1;
  const int lo2 = *(int*)A[4]; (void)lo2;
  const int hi2 = *(int*)A[5]; (void)hi2;
  const int s0 = *(int*)A[6]; (void)s0;
  const int s1 = *(int*)A[7]; (void)s1;
  const int s2 = *(int*)A[8]; (void)s2;
  const int gu = *(int*)A[9]; (void)gu;
  const int gv = *(int*)A[10]; (void)gv;
  const int gc = *(int*)A[11]; (void)gc;
  const int gr = *(int*)A[12]; (void)gr;
  const int xl0 = *(int*)A[13]; (void)xl0;
  const int xh0 = *(int*)A[14]; (void)xh0;
  const int xl1 = *(int*)A[15]; (void)xl1;
  const int xh1 = *(int*)A[16]; (void)xh1;
  const int xl2 = *(int*)A[17]; (void)xl2;
  const int xh2 = *(int*)A[18]; (void)xh2;
  const int yl0 = *(int*)A[19]; (void)yl0;
  const int yh0 = *(int*)A[20]; (void)yh0;
  const int yl1 = *(int*)A[21]; (void)yl1;
  const int yh1 = *(int*)A[22]; (void)yh1;
  const int yl2 = *(int*)A[23]; (void)yl2;
  const int yh2 = *(int*)A[24]; (void)yh2;
  const int n1 = *(int*)A[25]; (void)n1;
  const int n2 = *(int*)A[26]; (void)n2;
  const T a = *(T*)A[27]; (void)a;
  const T b = *(T*)A[28]; (void)b;
  const T h0 = *(T*)A[29]; (void)h0;
  const T h1 = *(T*)A[30]; (void)h1;
  const T h2 = *(T*)A[31]; (void)h2;
  T* u_ = (T*)A[32]; (void)u_;
  T* v_ = (T*)A[33]; (void)v_;
  T* c_ = (T*)A[34]; (void)c_;
  T* r_ = (T*)A[35]; (void)r_;
  T* q_ = (T*)A[36]; (void)q_;
  const auto i = Ib{lo0 - n1, hi0 - n1}.shift(n1);
  const auto j = (Jb{lo1 + 2, hi1 - 3} - 2) + 3;
  const auto k = Kb{lo2 + 1, hi2 - 1}.expand(1);
  auto u = make_md_span(u_, gu, Ib{lo0 - xl0, hi0 + xh0}, Jb{lo1 - xl1, hi1 + xh1}, Kb{lo2 - xl2, hi2 + xh2}); (void)u;
  auto v = make_md_span(v_, gv, i, j, k); (void)v;
  auto c = make_md_span(c_, gc, k, i, j); (void)c;
  auto r = make_md_span(r_, gr, Ib{lo0 - yl0, hi0 + yh0}, Jb{lo1 - yl1, hi1 + yh1}, Kb{lo2 - yl2, hi2 + yh2}); (void)r;
  auto q = make_md_span(q_, gr, Ib{lo0 - xl0, hi0 + xh0}, Kb{lo2 - xl2, hi2 + xh2}, Jb{lo1 - xl1, hi1 + xh1}); (void)q;
  with_domain(k, j, i)(r = b * u.shift_z(n1) + b * v.shift_xz() + T(0.5) * c.grad_z(h2));
  }
template <class T> static void e08_s50(void** A) {
  const int lo0 = *(int*)A[0]; (void)lo0;
  const int hi0 = *(int*)A[1]; (void)hi0;
  const int lo1 = *(int*)A[2]; (void)lo1;
  const int hi1 = *(int*)A[3]; (void)hi1;
  const int lo2 = *(int*)A[4]; (void)lo2;
  const int hi2 = *(int*)A[5]; (void)hi2;
  const int s0 = *(int*)A[6]; (void)s0;
  const int s1 = *(int*)A[7]; (void)s1;
  const int s2 = *(int*)A[8]; (void)s2;
  const int gu = *(int*)A[9]; (void)gu;
  const int gv = *(int*)A[10]; (void)gv;
  const int gc = *(int*)A[11]; (void)gc;
  const int gr = *(int*)A[12]; (void)gr;
  const int xl0 = *(int*)A[13]; (void)xl0;
  const int xh0 = *(int*)A[14]; (void)xh0;
  const int xl1 = *(int*)A[15]; (void)xl1;
  const int xh1 = *(int*)A[16]; (void)xh1;
  const int xl2 = *(int*)A[17]; (void)xl2;
  const int xh2 = *(int*)A[18]; (void)xh2;
  const int yl0 = *(int*)A[19]; (void)yl0;
  const int yh0 = *(int*)A[20]; (void)yh0;
  const int yl1 = *(int*)A[21]; (void)yl1;
  const int yh1 = *(int*)A[22]; (void)yh1;
  const int yl2 = *(int*)A[23]; (void)yl2;
  const int yh2 = *(int*)A[24]; (void)yh2;
  const int n1 = *(int*)A[25]; (void)n1;
  const int n2 = *(int*)A[26]; (void)n2;
  const T a = *(T*)A[27]; (void)a;
  const T b = *(T*)A[28]; (void)b;
  const T h0 = *(T*)A[29]; (void)h0;
  const T h1 = *(T*)A[30]; (void)h1;
  const T h2 = *(T*)A[31]; (void)h2;
  T* u_ = (T*)A[32]; (void)u_;
  T* v_ = (T*)A[33]; (void)v_;
  T* c_ = (T*)A[34]; (void)c_;
  T* r_ = (T*)A[35]; (void)r_;
  T* q_ = (T*)A[36]; (void)q_;
  const auto j = Jb{lo1 + 2, hi1} + -2;
  const auto k = Kb{lo2, hi2 + 1, 1, false};
  auto u = make_md_span(u_, gu, Jb{lo1 - xl1, hi1 + xh1}, Kb{lo2 - xl2, hi2 + xh2 + 1}); (void)u;
  auto v = make_md_span(v_, gv, j, k); (void)v;
  auto c = make_md_span(c_, gc, k, j); (void)c;
  auto r = make_md_span(r_, gr, Kb{lo2 - yl2, hi2 + yh2}, Jb{lo1 - yl1, hi1 + yh1}); (void)r;
  auto q = make_md_span(q_, gr, Kb{lo2 - xl2, hi2 + xh2}, Jb{lo1 - xl1, hi1 + xh1}); (void)q;
  auto e = a * u.shift_yz() + a * v.grad_y(h1, up) + T(0.5) * c.shift_z(n1);
  with_domain(j, k)(r = e, q = e - a);
  }
template <class T> static void e08_s58(void** A) {
  const int lo0 = *(int*)A[0]; (void)lo0;
  const int hi0 = *(int*)A[1]; (void)hi0;
  const int lo1 = *(int*)A[2]; (void)lo1;
  const int hi1 = *(int*)A[3]; (void)hi1;
  const int lo2 = *(int*)A[4]; (void)lo2;
  const int hi2 = *(int*)A[5]; (void)hi2;
  const int s0 = *(int*)A[6]; (void)s0;
  const int s1 = *(int*)A[7]; (void)s1;
  const int s2 = *(int*)A[8]; (void)s2;
  const int gu = *(int*)A[9]; (void)gu;
  const int gv = *(int*)A[10]; (void)gv;
  const int gc = *(int*)A[11]; (void)gc;
  const int gr = *(int*)A[12]; (void)gr;
  const int xl0 = *(int*)A[13]; (void)xl0;
  const int xh0 = *(int*)A[14]; (void)xh0;
  const int xl1 = *(int*)A[15]; (void)xl1;
  const int xh1 = *(int*)A[16]; (void)xh1;
  const int xl2 = *(int*)A[17]; (void)xl2;
  const int xh2 = *(int*)A[18]; (void)xh2;
  const int yl0 = *(int*)A[19]; (void)yl0;
  const int yh0 = *(int*)A[20]; (void)yh0;
  const int yl1 = *(int*)A[21]; (void)yl1;
  const int yh1 = *(int*)A[22]; (void)yh1;
  const int yl2 = *(int*)A[23]; (void)yl2;
  const int yh2 = *(int*)A[24]; (void)yh2;
  const int n1 = *(int*)A[25]; (void)n1;
  const int n2 = *(int*)A[26]; (void)n2;
  const T a = *(T*)A[27]; (void)a;
  const T b = *(T*)A[28]; (void)b;
  const T h0 = *(T*)A[29]; (void)h0;
  const T h1 = *(T*)A[30]; (void)h1;
  const T h2 = *(T*)A[31]; (void)h2;
  T* u_ = (T*)A[32]; (void)u_;
  T* v_ = (T*)A[33]; (void)v_;
  T* c_ = (T*)A[34]; (void)c_;
  T* r_ = (T*)A[35]; (void)r_;
  T* q_ = (T*)A[36]; (void)q_;
  const auto i = Ib{lo0, hi0 + 1, 1, false};
  auto u = make_md_span(u_, gu, Ib{lo0 - xl0, hi0 + xh0}); (void)u;
  auto v = make_md_span(v_, gv, i); (void)v;
  auto c = make_md_span(c_, gc, i); (void)c;
  auto r = make_md_span(r_, gr, Ib{lo0 - yl0, hi0 + yh0}); (void)r;
  auto q = make_md_span(q_, gr, Ib{lo0 - xl0, hi0 + xh0}); (void)q;
  with_domain(i)(r = 2 * u.grad_x(h0, up));
  }
template <class T> static void e08_f05(void** A) {
  const int lo0 = *(int*)A[0]; (void)lo0;
  const int hi0 = *(int*)A[1]; (void)hi0;
  const int lo1 = *(int*)A[2]; (void)lo1;
  const int hi1 = *(int*)A[3]; (void)hi1;
  const int lo2 = *(int*)A[4]; (void)lo2;
  const int hi2 = *(int*)A[5]; (void)hi2;
  const int s0 = *(int*)A[6]; (void)s0;
  const int s1 = *(int*)A[7]; (void)s1;
  const int s2 = *(int*)A[8]; (void)s2;
  const int gu = *(int*)A[9]; (void)gu;
  const int gv = *(int*)A[10]; (void)gv;
  const int gc = *(int*)A[11]; (void)gc;
  const int gr = *(int*)A[12]; (void)gr;
  const int xl0 = *(int*)A[13]; (void)xl0;
  const int xh0 = *(int*)A[14]; (void)xh0;
  const int xl1 = *(int*)A[15]; (void)xl1;
  const int xh1 = *(int*)A[16]; (void)xh1;
  const int xl2 = *(int*)A[17]; (void)xl2;
  const int xh2 = *(int*)A[18]; (void)xh2;
  const int yl0 = *(int*)A[19]; (void)yl0;
  const int yh0 = *(int*)A[20]; (void)yh0;
  const int yl1 = *(int*)A[21]; (void)yl1;
  const int yh1 = *(int*)A[22]; (void)yh1;
  const int yl2 = *(int*)A[23]; (void)yl2;
  const int yh2 = *(int*)A[24]; (void)yh2;
  const int n1 = *(int*)A[25]; (void)n1;
  const int n2 = *(int*)A[26]; (void)n2;
  const T a = *(T*)A[27]; (void)a;
  const T b = *(T*)A[28]; (void)b;
  const T h0 = *(T*)A[29]; (void)h0;
  const T h1 = *(T*)A[30]; (void)h1;
  const T h2 = *(T*)A[31]; (void)h2;
  T* u_ = (T*)A[32]; (void)u_;
  T* v_ = (T*)A[33]; (void)v_;
  T* c_ = (T*)A[34]; (void)c_;
  T* r_ = (T*)A[35]; (void)r_;
  T* q_ = (T*)A[36]; (void)q_;
  const auto i = Ib{lo0, hi0};
  const auto k = Kb{lo2, hi2};
  const int rt = 2 + (n1 < 0 ? -n1 : n1), st = (n2 < 0 ? -n2 : n2) % rt;
  auto u = make_md_span(u_, gu, Ib{lo0 - xl0, hi0 + xh0}, Kb{lo2 - xl2, hi2 + xh2}); (void)u;
  auto v = make_md_span(v_, gv, i, k); (void)v;
  auto c = make_md_span(c_, gc, i, k); (void)c;
  auto r = make_md_span(r_, gr, k, Ib{lo0 * rt, hi0 * rt + rt - 1}); (void)r;
  auto q = make_md_span(q_, gr, Ib{lo0 * rt, hi0 * rt + rt - 1}, k); (void)q;
  with_domain(Ib{lo0 * rt + st, hi0 * rt + rt - 1}, Kb{lo2, lo2})(r = u.fine(rt, Kb{hi2, hi2}));
  with_domain(Ib{lo0 * rt + st, hi0 * rt + rt - 1}, Kb{hi2, hi2})(q = v.fine(rt, Kb{lo2, lo2}));
  r.at(lo2, lo0 * rt) = c.at(hi0, hi2);
  }
struct Reg { Reg() {
  sim_register_harness("e08_04", 0, 0, e08_04<double>); sim_register_harness("e08_04", 1, 0, e08_04<float>);
  sim_register_harness("e08_12", 0, 0, e08_12<double>); sim_register_harness("e08_12", 1, 0, e08_12<float>);
  sim_register_harness("e08_20", 0, 0, e08_20<double>); sim_register_harness("e08_20", 1, 0, e08_20<float>);
  sim_register_harness("e08_28", 0, 0, e08_28<double>); sim_register_harness("e08_28", 1, 0, e08_28<float>);
  sim_register_harness("e08_36", 0, 0, e08_36<double>); sim_register_harness("e08_36", 1, 0, e08_36<float>);
  sim_register_harness("e08_44", 0, 0, e08_44<double>); sim_register_harness("e08_44", 1, 0, e08_44<float>);
  sim_register_harness("e08_52", 0, 0, e08_52<double>); sim_register_harness("e08_52", 1, 0, e08_52<float>);
  sim_register_harness("e08_60", 0, 0, e08_60<double>); sim_register_harness("e08_60", 1, 0, e08_60<float>);
  sim_register_harness("e08_s02", 0, 0, e08_s02<double>); sim_register_harness("e08_s02", 1, 0, e08_s02<float>);
  sim_register_harness("e08_s10", 0, 0, e08_s10<double>); sim_register_harness("e08_s10", 1, 0, e08_s10<float>);
  sim_register_harness("e08_s18", 0, 0, e08_s18<double>); sim_register_harness("e08_s18", 1, 0, e08_s18<float>);
  sim_register_harness("e08_s26", 0, 0, e08_s26<double>); sim_register_harness("e08_s26", 1, 0, e08_s26<float>);
  sim_register_harness("e08_s34", 0, 0, e08_s34<double>); sim_register_harness("e08_s34", 1, 0, e08_s34<float>);
  sim_register_harness("e08_s42", 0, 0, e08_s42<double>); sim_register_harness("e08_s42", 1, 0, e08_s42<float>);
  sim_register_harness("e08_s50", 0, 0, e08_s50<double>); sim_register_harness("e08_s50", 1, 0, e08_s50<float>);
  sim_register_harness("e08_s58", 0, 0, e08_s58<double>); sim_register_harness("e08_s58", 1, 0, e08_s58<float>);
  sim_register_harness("e08_f05", 0, 0, e08_f05<double>); sim_register_harness("e08_f05", 1, 0, e08_f05<float>);
} } reg;
}
