// generated by tools/gen_h.py
#include "md_device_span.hpp"
extern "C" void sim_register_harness(const char*, int, int, void (*)(void**));
namespace {
template <class T> static void e08_00(void** A) {
  const int lo0 = *(int*)A[0]; (void)lo0;
  const int hi0 = *(int*)A[1]; (void)hi0;
  const int lo1 = *(int*)A[2]; (void)lo1;
  const int hi1 = *(int*)A[3]; (void)hi1;
  const int lo2 = *(int*)A[4]; (void)lo2;
  const int hi2 = *(int*)A[5]; (void)hi2;
  const int s0 = *(int*)A[6]; (void)s0;
  const int s1 = *(int*)A[7]; (void)s1;
  const int s2 = *(int*)A[8]; (void)s2;
  const int gu = *(int*)A[9]; (void)gu;
  const int gv = *(int*)A[10]; (void)gv;
  const int gc = *(int*)A[11]; (void)gc;
  const int gr = *(int*)A[12]; (void)gr;
  const int xl0 = *(int*)A[13]; (void)xl0;
  const int xh0 = *(int*)A[14]; (void)xh0;
  const int xl1 = *(int*)A[15]; (void)xl1;
  const int xh1 = *(int*)A[16]; (void)xh1;
  const int xl2 = *(int*)A[17]; (void)xl2;
  const int xh2 = *(int*)A[18]; (void)xh2;
  const int yl0 = *(int*)A[19]; (void)yl0;
  const int yh0 = *(int*)A[20]; (void)yh0;
  const int yl1 = *(int*)A[21]; (void)yl1;
  const int yh1 = *(int*)A[22]; (void)yh1;
  const int yl2 = *(int*)A[23]; (void)yl2;
  const int yh2 = *(int*)A[24]; (void)yh2;
  const int n1 = *(int*)A[25]; (void)n1;
  const int n2 = *(int*)A[26]; (void)n2;
  const T a = *(T*)A[27]; (void)a;
  const T b = *(T*)A[28]; (void)b;
  const T h0 = *(T*)A[29]; (void)h0;
  const T h1 = *(T*)A[30]; (void)h1;
  const T h2 = *(T*)A[31]; (void)h2;
  T* u_ = (T*)A[32]; (void)u_;
  T* v_ = (T*)A[33]; (void)v_;
  T* c_ = (T*)A[34]; (void)c_;
  T* r_ = (T*)A[35]; (void)r_;
  T* q_ = (T*)A[36]; (void)q_;
  const auto i = Ib{lo0, hi0};
  auto u = make_md_span(u_, gu, Ib{lo0 - xl0, hi0 + xh0}); (void)u;
  auto v = make_md_span(v_, gv, i); (void)v;
  auto c = make_md_span(c_, gc, i); (void)c;
  auto r = make_md_span(r_, gr, Ib{lo0 - yl0, hi0 + yh0 + 1}); (void)r;
  auto q = make_md_span(q_, gr, Ib{lo0 - xl0, hi0 + xh0}); (void)q;
  with_domain(i)(r = ((3 - (u.shift_x(n2) + v.shift_x(-1))) + ((c.shift_x(n1) - c.grad_x(h0, down)) - (v + u.grad_x(h0, down)))));
  }
template <class T> static void e08_08(void** A) {
  const int lo0 = *(int*)A[0]; (void)lo0;
  const int hi0 = *(int*)A[1]; (void)hi0;
  const int lo1 = *(int*)A[2]; (void)lo1;
  const int hi1 = *(int*)A[3]; (void)hi1;
  const int lo2 = *(int*)A[4]; (void)lo2;
  const int hi2 = *(int*)A[5]; (void)hi2;
  const int s0 = *(int*)A[6]; (void)s0;
  const int s1 = *(int*)A[7]; (void)s1;
  const int s2 = *(int*)A[8]; (void)s2;
  const int gu = *(int*)A[9]; (void)gu;
  const int gv = *(int*)A[10]; (void)gv;
  const int gc = *(int*)A[11]; (void)gc;
  const int gr = *(int*)A[12]; (void)gr;
  const int xl0 = *(int*)A[13]; (void)xl0;
  const int xh0 = *(int*)A[14]; (void)xh0;
  const int xl1 = *(int*)A[15]; (void)xl1;
  const int xh1 = *(int*)A[16]; (void)xh1;
  const int xl2 = *(int*)A[17]; (void)xl2;
  const int xh2 = *(int*)A[18]; (void)xh2;
  const int yl0 = *(int*)A[19]; (void)yl0;
  const int yh0 = *(int*)A[20]; (void)yh0;
  const int yl1 = *(int*)A[21]; (void)yl1;
  const int yh1 = *(int*)A[22]; (void)yh1;
  const int yl2 = *(int*)A[23]; (void)yl2;
  const int yh2 = *(int*)A[24]; (void)yh2;
  const int n1 = *(int*)A[25]; (void)n1;
  const int n2 = *(int*)A[26]; (void)n2;
  const T a = *(T*)A[27]; (void)a;
  const T b = *(T*)A[28]; (void)b;
  const T h0 = *(T*)A[29]; (void)h0;
  const T h1 = *(T*)A[30]; (void)h1;
  const T h2 = *(T*)A[31]; (void)h2;
  T* u_ = (T*)A[32]; (void)u_;
  T* v_ = (T*)A[33]; (void)v_;
  T* c_ = (T*)A[34]; (void)c_;
  T* r_ = (T*)A[35]; (void)r_;
  T* q_ = (T*)A[36]; (void)q_;
  const auto i = Ib{lo0, hi0};
  auto u = make_md_span(u_, gu, Ib{lo0 - xl0, hi0 + xh0}); (void)u;
  auto v = make_md_span(v_, gv, i); (void)v;
  auto c = make_md_span(c_, gc, i + 1); (void)c;
  auto r = make_md_span(r_, gr, Ib{lo0 - yl0, hi0 + yh0}); (void)r;
  auto q = make_md_span(q_, gr, Ib{lo0 - xl0, hi0 + xh0}); (void)q;
  with_domain(Ib{lo0, hi0, s0})(r = (u - (c + c.shift_x(1))));
  }
template <class T> static void e08_16(void** A) {
  const int lo0 = *(int*)A[0]; (void)lo0;
  const int hi0 = *(int*)A[1]; (void)hi0;
  const int lo1 = *(int*)A[2]; (void)lo1;
  const int hi1 = *(int*)A[3]; (void)hi1;
  const int lo2 = *(int*)A[4]; (void)lo2;
  const int hi2 = *(int*)A[5]; (void)hi2;
  const int s0 = *(int*)A[6]; (void)s0;
  const int s1 = *(int*)A[7]; (void)s1;
  const int s2 = *(int*)A[8]; (void)s2;
  const int gu = *(int*)A[9]; (void)gu;
  const int gv = *(int*)A[10]; (void)gv;
  const int gc = *(int*)A[11]; (void)gc;
  const int gr = *(int*)A[12]; (void)gr;
  const int xl0 = *(int*)A[13]; (void)xl0;
  const int xh0 = *(int*)A[14]; (void)xh0;
  const int xl1 = *(int*)A[15]; (void)xl1;
  const int xh1 = *(int*)A[16]; (void)xh1;
  const int xl2 = *(int*)A[17]; (void)xl2;
  const int xh2 = *(int*)A[18]; (void)xh2;
  const int yl0 = *(int*)A[19]; (void)yl0;
  const int yh0 = *(int*)A[20]; (void)yh0;
  const int yl1 = *(int*)A[21]; (void)yl1;
  const int yh1 = *(int*)A[22]; (void)yh1;
  const int yl2 = *(int*)A[23]; (void)yl2;
  const int yh2 = *(int*)A[24]; (void)yh2;
  const int n1 = *(int*)A[25]; (void)n1;
  const int n2 = *(int*)A[26]; (void)n2;
  const T a = *(T*)A[27]; (void)a;
  const T b = *(T*)A[28]; (void)b;
  const T h0 = *(T*)A[29]; (void)h0;
  const T h1 = *(T*)A[30]; (void)h1;
  const T h2 = *(T*)A[31]; (void)h2;
  T* u_ = (T*)A[32]; (void)u_;
  T* v_ = (T*)A[33]; (void)v_;
  T* c_ = (T*)A[34]; (void)c_;
  T* r_ = (T*)A[35]; (void)r_;
  T* q_ = (T*)A[36]; (void)q_;
  const auto i = Ib{lo0, hi0};
  const auto j = Jb{lo1, hi1};
  auto u = make_md_span(u_, gu, Jb{lo1 - xl1, hi1 + xh1}, Ib{lo0 - xl0, hi0 + xh0}); (void)u;
  auto v = make_md_span(v_, gv, i + 1, j); (void)v;
  auto c = make_md_span(c_, gc, i, j); (void)c;
  auto r = make_md_span(r_, gr, Jb{lo1 - yl1, hi1 + yh1 + 1}, Ib{lo0 - yl0, hi0 + yh0}); (void)r;
  auto q = make_md_span(q_, gr, Ib{lo0 - xl0, hi0 + xh0}, Jb{lo1 - xl1, hi1 + xh1}); (void)q;
  with_domain(j, i)(r = (c.grad_x(h0, up) + a));
  }
template <class T> static void e08_24(void** A) {
  const int lo0 = *(int*)A[0]; (void)lo0;
  const int hi0 = *(int*)A[1]; (void)hi0;
  const int lo1 = *(int*)A[2]; (void)lo1;
  const int hi1 = *(int*)A[3]; (void)hi1;
  const int lo2 = *(int*)A[4]; (void)lo2;
  const int hi2 = *(int*)A[5]; (void)hi2;
  const int s0 = *(int*)A[6]; (void)s0;
  const int s1 = *(int*)A[7]; (void)s1;
  const int s2 = *(int*)A[8]; (void)s2;
  const int gu = *(int*)A[9]; (void)gu;
  const int gv = *(int*)A[10]; (void)gv;
  const int gc = *(int*)A[11]; (void)gc;
  const int gr = *(int*)A[12]; (void)gr;
  const int xl0 = *(int*)A[13]; (void)xl0;
  const int xh0 = *(int*)A[14]; (void)xh0;
  const int xl1 = *(int*)A[15]; (void)xl1;
  const int xh1 = *(int*)A[16]; (void)xh1;
  const int xl2 = *(int*)A[17]; (void)xl2;
  const int xh2 = *(int*)A[18]; (void)xh2;
  const int yl0 = *(int*)A[19]; (void)yl0;
  const int yh0 = *(int*)A[20]; (void)yh0;
  const int yl1 = *(int*)A[21]; (void)yl1;
  const int yh1 = *(int*)A[22]; (void)yh1;
  const int yl2 = *(int*)A[23]; (void)yl2;
  const int yh2 = *(int*)A[24]; (void)yh2;
  const int n1 = *(int*)A[25]; (void)n1;
  const int n2 = *(int*)A[26]; (void)n2;
  const T a = *(T*)A[27]; (void)a;
  const T b = *(T*)A[28]; (void)b;
  const T h0 = *(T*)A[29]; (void)h0;
  const T h1 = *(T*)A[30]; (void)h1;
  const T h2 = *(T*)A[31]; (void)h2;
  T* u_ = (T*)A[32]; (void)u_;
  T* v_ = (T*)A[33]; (void)v_;
  T* c_ = (T*)A[34]; (void)c_;
  T* r_ = (T*)A[35]; (void)r_;
  T* q_ = (T*)A[36]; (void)q_;
  const auto i = Ib{lo0, hi0};
  const auto j = Jb{lo1, hi1};
  auto u = make_md_span(u_, gu, Jb{lo1 - xl1, hi1 + xh1}, Ib{lo0 - xl0, hi0 + xh0}); (void)u;
  auto v = make_md_span(v_, gv, i + 1, j); (void)v;
  auto c = make_md_span(c_, gc, i, j); (void)c;
  auto r = make_md_span(r_, gr, Jb{lo1 - yl1, hi1 + yh1}, Ib{lo0 - yl0, hi0 + yh0}); (void)r;
  auto q = make_md_span(q_, gr, Ib{lo0 - xl0, hi0 + xh0}, Jb{lo1 - xl1, hi1 + xh1}); (void)q;
  with_domain(j, i)(r = (b / (c + 2)), q = (v.grad_y(h1) + u.shift_x(2)));
  }
template <class T> static void e08_32(void** A) {
  const int lo0 = *(int*)A[0]; (void)lo0;
  const int hi0 = *(int*)A[1]; (void)hi0;
  const int lo1 = *(int*)A[2]; (void)lo1;
  const int hi1 = *(int*)A[3]; (void)hi1;
  const int lo2 = *(int*)A[4]; (void)lo2;
  const int hi2 = *(int*)A[5]; (void)hi2;
  const int s0 = *(int*)A[6]; (void)s0;
  const int s1 = *(int*)A[7]; (void)s1;
  const int s2 = *(int*)A[8]; (void)s2;
  const int gu = *(int*)A[9]; (void)gu;
  const int gv = *(int*)A[10]; (void)gv;
  const int gc = *(int*)A[11]; (void)gc;
  const int gr = *(int*)A[12]; (void)gr;
  const int xl0 = *(int*)A[13]; (void)xl0;
  const int xh0 = *(int*)A[14]; (void)xh0;
  const int xl1 = *(int*)A[15]; (void)xl1;
  const int xh1 = *(int*)A[16]; (void)xh1;
  const int xl2 = *(int*)A[17]; (void)xl2;
  const int xh2 = *(int*)A[18]; (void)xh2;
  const int yl0 = *(int*)A[19]; (void)yl0;
  const int yh0 = *(int*)A[20]; (void)yh0;
  const int yl1 = *(int*)A[21]; (void)yl1;
  const int yh1 = *(int*)A[22]; (void)yh1;
  const int yl2 = *(int*)A[23]; (void)yl2;
  const int yh2 = *(int*)A[24]; (void)yh2;
  const int n1 = *(int*)A[25]; (void)n1;
  const int n2 = *(int*)A[26]; (void)n2;
  const T a = *(T*)A[27]; (void)a;
  const T b = *(T*)A[28]; (void)b;
  const T h0 = *(T*)A[29]; (void)h0;
  const T h1 = *(T*)A[30]; (void)h1;
  const T h2 = *(T*)A[31]; (void)h2;
  T* u_ = (T*)A[32]; (void)u_;
  T* v_ = (T*)A[33]; (void)v_;
  T* c_ = (T*)A[34]; (void)c_;
  T* r_ = (T*)A[35]; (void)r_;
  T* q_ = (T*)A[36]; (void)q_;
  const auto i = Ib{lo0, hi0};
  const auto j = Jb{lo1, hi1};
  const auto k = Kb{lo2, hi2};
  auto u = make_md_span(u_, gu, Jb{lo1 - xl1, hi1 + xh1}, Kb{lo2 - xl2, hi2 + xh2 + 1}, Ib{lo0 - xl0, hi0 + xh0}); (void)u;
  auto v = make_md_span(v_, gv, i, j, k); (void)v;
  auto c = make_md_span(c_, gc, j, k, i); (void)c;
  auto r = make_md_span(r_, gr, Jb{lo1 - yl1, hi1 + yh1}, Kb{lo2 - yl2, hi2 + yh2 + 1}, Ib{lo0 - yl0, hi0 + yh0}); (void)r;
  auto q = make_md_span(q_, gr, Ib{lo0 - xl0, hi0 + xh0}, Jb{lo1 - xl1, hi1 + xh1}, Kb{lo2 - xl2, hi2 + xh2}); (void)q;
  with_domain(k, i, j)(r = ((v.shift_x(1) * b) / (3 * c)));
  }
template <class T> static void e08_40(void** A) {
  const int lo0 = *(int*)A[0]; (void)lo0;
  const int hi0 = *(int*)A[1]; (void)hi0;
  const int lo1 = *(int*)A[2]; (void)lo1;
  const int hi1 = *(int*)A[3]; (void)hi1;
  const int lo2 = *(int*)A[4]; (void)lo2;
  const int hi2 = *(int*)A[5]; (void)hi2;
  const int s0 = *(int*)A[6]; (void)s0;
  const int s1 = *(int*)A[7]; (void)s1;
  const int s2 = *(int*)A[8]; (void)s2;
  const int gu = *(int*)A[9]; (void)gu;
  const int gv = *(int*)A[10]; (void)gv;
  const int gc = *(int*)A[11]; (void)gc;
  const int gr = *(int*)A[12]; (void)gr;
  const int xl0 = *(int*)A[13]; (void)xl0;
  const int xh0 = *(int*)A[14]; (void)xh0;
  const int xl1 = *(int*)A[15]; (void)xl1;
  const int xh1 = *(int*)A[16]; (void)xh1;
  const int xl2 = *(int*)A[17]; (void)xl2;
  const int xh2 = *(int*)A[18]; (void)xh2;
  const int yl0 = *(int*)A[19]; (void)yl0;
  const int yh0 = *(int*)A[20]; (void)yh0;
  const int yl1 = *(int*)A[21]; (void)yl1;
  const int yh1 = *(int*)A[22]; (void)yh1;
  const int yl2 = *(int*)A[23]; (void)yl2;
  const int yh2 = *(int*)A[24]; (void)yh2;
  const int n1 = *(int*)A[25]; (void)n1;
  const int n2 = *(int*)A[26]; (void)n2;
  const T a = *(T*)A[27]; (void)a;
  const T b = *(T*)A[28]; (void)b;
  const T h0 = *(T*)A[29]; (void)h0;
  const T h1 = *(T*)A[30]; (void)h1;
  const T h2 = *(T*)A[31]; (void)h2;
  T* u_ = (T*)A[32]; (void)u_;
  T* v_ = (T*)A[33]; (void)v_;
  T* c_ = (T*)A[34]; (void)c_;
  T* r_ = (T*)A[35]; (void)r_;
  T* q_ = (T*)A[36]; (void)q_;
  const auto i = Ib{lo0, hi0};
  const auto j = Jb{lo1, hi1};
  const auto k = Kb{lo2, hi2};
  auto u = make_md_span(u_, gu, Kb{lo2 - xl2, hi2 + xh2}, Ib{lo0 - xl0, hi0 + xh0}, Jb{lo1 - xl1, hi1 + xh1}); (void)u;
  auto v = make_md_span(v_, gv, j, k, i + 1); (void)v;
  auto c = make_md_span(c_, gc, k + 1, i, j); (void)c;
  auto r = make_md_span(r_, gr, Ib{lo0 - yl0, hi0 + yh0}, Jb{lo1 - yl1, hi1 + yh1}, Kb{lo2 - yl2, hi2 + yh2}); (void)r;
  auto q = make_md_span(q_, gr, Ib{lo0 - xl0, hi0 + xh0}, Jb{lo1 - xl1, hi1 + xh1}, Kb{lo2 - xl2, hi2 + xh2}); (void)q;
  with_domain(Jb{lo1, hi1, s1}, Kb{lo2, hi2, s2}, Ib{lo0, hi0, s0})(r = (r * T(0.5) + (u.shift_y(-2) / (3 * c))));
  }
template <class T> static void e08_48(void** A) {
  const int lo0 = *(int*)A[0]; (void)lo0;
  const int hi0 = *(int*)A[1]; (void)hi0;
  const int lo1 = *(int*)A[2]; (void)lo1;
  const int hi1 = *(int*)A[3]; (void)hi1;
  const int lo2 = *(int*)A[4]; (void)lo2;
  const int hi2 = *(int*)A[5]; (void)hi2;
  const int s0 = *(int*)A[6]; (void)s0;
  const int s1 = *(int*)A[7]; (void)s1;
  const int s2 = *(int*)A[8]; (void)s2;
  const int gu = *(int*)A[9]; (void)gu;
  const int gv = *(int*)A[10]; (void)gv;
  const int gc = *(int*)A[11]; (void)gc;
  const int gr = *(int*)A[12]; (void)gr;
  const int xl0 = *(int*)A[13]; (void)xl0;
  const int xh0 = *(int*)A[14]; (void)xh0;
  const int xl1 = *(int*)A[15]; (void)xl1;
  const int xh1 = *(int*)A[16]; (void)xh1;
  const int xl2 = *(int*)A[17]; (void)xl2;
  const int xh2 = *(int*)A[18]; (void)xh2;
  const int yl0 = *(int*)A[19]; (void)yl0;
  const int yh0 = *(int*)A[20]; (void)yh0;
  const int yl1 = *(int*)A[21]; (void)yl1;
  const int yh1 = *(int*)A[22]; (void)yh1;
  const int yl2 = *(int*)A[23]; (void)yl2;
  const int yh2 = *(int*)A[24]; (void)yh2;
  const int n1 = *(int*)A[25]; (void)n1;
  const int n2 = *(int*)A[26]; (void)n2;
  const T a = *(T*)A[27]; (void)a;
  const T b = *(T*)A[28]; (void)b;
  const T h0 = *(T*)A[29]; (void)h0;
  const T h1 = *(T*)A[30]; (void)h1;
  const T h2 = *(T*)A[31]; (void)h2;
  T* u_ = (T*)A[32]; (void)u_;
  T* v_ = (T*)A[33]; (void)v_;
  T* c_ = (T*)A[34]; (void)c_;
  T* r_ = (T*)A[35]; (void)r_;
  T* q_ = (T*)A[36]; (void)q_;
  const auto i = Ib{lo0, hi0};
  auto u = make_md_span(u_, gu, Ib{lo0 - xl0, hi0 + xh0}); (void)u;
  auto v = make_md_span(v_, gv, i); (void)v;
  auto c = make_md_span(c_, gc, i + 1); (void)c;
  auto r = make_md_span(r_, gr, Ib{lo0 - yl0, hi0 + yh0}); (void)r;
  auto q = make_md_span(q_, gr, Ib{lo0 - xl0, hi0 + xh0}); (void)q;
  with_domain(i)(r = (b + u), q = -1 * r + (u.grad_x(h0, up) - u.shift_x(-2)), r = b * q + (u.grad_x(h0, down) / 2));
  }
template <class T> static void e08_56(void** A) {
  const int lo0 = *(int*)A[0]; (void)lo0;
  const int hi0 = *(int*)A[1]; (void)hi0;
  const int lo1 = *(int*)A[2]; (void)lo1;
  const int hi1 = *(int*)A[3]; (void)hi1;
  const int lo2 = *(int*)A[4]; (void)lo2;
  const int hi2 = *(int*)A[5]; (void)hi2;
  const int s0 = *(int*)A[6]; (void)s0;
  const int s1 = *(int*)A[7]; (void)s1;
  const int s2 = *(int*)A[8]; (void)s2;
  const int gu = *(int*)A[9]; (void)gu;
  const int gv = *(int*)A[10]; (void)gv;
  const int gc = *(int*)A[11]; (void)gc;
  const int gr = *(int*)A[12]; (void)gr;
  const int xl0 = *(int*)A[13]; (void)xl0;
  const int xh0 = *(int*)A[14]; (void)xh0;
  const int xl1 = *(int*)A[15]; (void)xl1;
  const int xh1 = *(int*)A[16]; (void)xh1;
  const int xl2 = *(int*)A[17]; (void)xl2;
  const int xh2 = *(int*)A[18]; (void)xh2;
  const int yl0 = *(int*)A[19]; (void)yl0;
  const int yh0 = *(int*)A[20]; (void)yh0;
  const int yl1 = *(int*)A[21]; (void)yl1;
  const int yh1 = *(int*)A[22]; (void)yh1;
  const int yl2 = *(int*)A[23]; (void)yl2;
  const int yh2 = *(int*)A[24]; (void)yh2;
  const int n1 = *(int*)A[25]; (void)n1;
  const int n2 = *(int*)A[26]; (void)n2;
  const T a = *(T*)A[27]; (void)a;
  const T b = *(T*)A[28]; (void)b;
  const T h0 = *(T*)A[29]; (void)h0;
  const T h1 = *(T*)A[30]; (void)h1;
  const T h2 = *(T*)A[31]; (void)h2;
  T* u_ = (T*)A[32]; (void)u_;
  T* v_ = (T*)A[33]; (void)v_;
  T* c_ = (T*)A[34]; (void)c_;
  T* r_ = (T*)A[35]; (void)r_;
  T* q_ = (T*)A[36]; (void)q_;
  const auto i = Ib{lo0, hi0};
  const auto j = Jb{lo1, hi1};
  auto u = make_md_span(u_, gu, Ib{lo0 - xl0, hi0 + xh0 + 1}, Jb{lo1 - xl1, hi1 + xh1}); (void)u;
  auto v = make_md_span(v_, gv, j, i); (void)v;
  auto c = make_md_span(c_, gc, i, j); (void)c;
  auto r = make_md_span(r_, gr, Ib{lo0 - yl0, hi0 + yh0}, Jb{lo1 - yl1, hi1 + yh1}); (void)r;
  auto q = make_md_span(q_, gr, Jb{lo1 - xl1, hi1 + xh1}, Ib{lo0 - xl0, hi0 + xh0}); (void)q;
  with_domain(j, i)(r = c, q = 2 * r.shift_y(1) + (c.grad_x(h0) * b));
  }
template <class T> static void e08_64(void** A) {
  const int lo0 = *(int*)A[0]; (void)lo0;
  const int hi0 = *(int*)A[1]; (void)hi0;
  const int lo1 = *(int*)A[2]; (void)lo1;
  const int hi1 = *(int*)A[3]; (void)hi1;
  const int lo2 = *(int*)A[4]; (void)lo2;
  const int hi2 = *(int*)A[5]; (void)hi2;
  const int s0 = *(int*)A[6]; (void)s0;
  const int s1 = *(int*)A[7]; (void)s1;
  const int s2 = *(int*)A[8]; (void)s2;
  const int gu = *(int*)A[9]; (void)gu;
  const int gv = *(int*)A[10]; (void)gv;
  const int gc = *(int*)A[11]; (void)gc;
  const int gr = *(int*)A[12]; (void)gr;
  const int xl0 = *(int*)A[13]; (void)xl0;
  const int xh0 = *(int*)A[14]; (void)xh0;
  const int xl1 = *(int*)A[15]; (void)xl1;
  const int xh1 = *(int*)A[16]; (void)xh1;
  const int xl2 = *(int*)A[17]; (void)xl2;
  const int xh2 = *(int*)A[18]; (void)xh2;
  const int yl0 = *(int*)A[19]; (void)yl0;
  const int yh0 = *(int*)A[20]; (void)yh0;
  const int yl1 = *(int*)A[21]; (void)yl1;
  const int yh1 = *(int*)A[22]; (void)yh1;
  const int yl2 = *(int*)A[23]; (void)yl2;
  const int yh2 = *(int*)A[24]; (void)yh2;
  const int n1 = *(int*)A[25]; (void)n1;
  const int n2 = *(int*)A[26]; (void)n2;
  const T a = *(T*)A[27]; (void)a;
  const T b = *(T*)A[28]; (void)b;
  const T h0 = *(T*)A[29]; (void)h0;
  const T h1 = *(T*)A[30]; (void)h1;
  const T h2 = *(T*)A[31]; (void)h2;
  T* u_ = (T*)A[32]; (void)u_;
  T* v_ = (T*)A[33]; (void)v_;
  T* c_ = (T*)A[34]; (void)c_;
  T* r_ = (T*)A[35]; (void)r_;
  T* q_ = (T*)A[36]; (void)q_;
  const auto i = Ib{lo0, hi0};
  const auto j = Jb{lo1, hi1};
  const auto k = Kb{lo2, hi2};
  auto u = make_md_span(u_, gu, Ib{lo0 - xl0, hi0 + xh0}, Jb{lo1 - xl1, hi1 + xh1}, Kb{lo2 - xl2, hi2 + xh2}); (void)u;
  auto v = make_md_span(v_, gv, i, j, k); (void)v;
  auto c = make_md_span(c_, gc, k, i + 1, j); (void)c;
  auto r = make_md_span(r_, gr, Kb{lo2 - yl2, hi2 + yh2}, Jb{lo1 - yl1, hi1 + yh1}, Ib{lo0 - yl0, hi0 + yh0}); (void)r;
  auto q = make_md_span(q_, gr, Ib{lo0 - xl0, hi0 + xh0}, Jb{lo1 - xl1, hi1 + xh1}, Kb{lo2 - xl2, hi2 + xh2}); (void)q;
  with_domain(k, i, j)(r = (T(0.5) * (3 - v.shift_y(1))));
  }
template <class T> static void e08_s06(void** A) {
  const int lo0 = *(int*)A[0]; (void)lo0;
  const int hi0 = *(int*)A[1]; (void)hi0;
  const int lo1 = *(int*)A[2]; (void)lo1;
  const int hi1 = *(int*)A[3]; (void)hi1;
  const int lo2 = *(int*)A[4]; (void)lo2;
  const int hi2 = *(int*)A[5]; (void)hi2;
  const int s0 = *(int*)A[6]; (void)s0;
  const int s1 = *(int*)A[7]; (void)s1;
  const int s2 = *(int*)A[8]; (void)s2;
  const int gu = *(int*)A[9]; (void)gu;
  const int gv = *(int*)A[10]; (void)gv;
  const int gc = *(int*)A[11]; (void)gc;
  const int gr = *(int*)A[12]; (void)gr;
  const int xl0 = *(int*)A[13]; (void)xl0;
  const int xh0 = *(int*)A[14]; (void)xh0;
  const int xl1 = *(int*)A[15]; (void)xl1;
  const int xh1 = *(int*)A[16]; (void)xh1;
  const int xl2 = *(int*)A[17]; (void)xl2;
  const int xh2 = *(int*)A[18]; (void)xh2;
  const int yl0 = *(int*)A[19]; (void)yl0;
  const int yh0 = *(int*)A[20]; (void)yh0;
  const int yl1 = *(int*)A[21]; (void)yl1;
  const int yh1 = *(int*)A[22]; (void)yh1;
  const int yl2 = *(int*)A[23]; (void)yl2;
  const int yh2 = *(int*)A[24]; (void)yh2;
  const int n1 = *(int*)A[25]; (void)n1;
  const int n2 = *(int*)A[26]; (void)n2;
  const T a = *(T*)A[27]; (void)a;
  const T b = *(T*)A[28]; (void)b;
  const T h0 = *(T*)A[29]; (void)h0;
  const T h1 = *(T*)A[30]; (void)h1;
  const T h2 = *(T*)A[31]; (void)h2;
  T* u_ = (T*)A[32]; (void)u_;
  T* v_ = (T*)A[33]; (void)v_;
  T* c_ = (T*)A[34]; (void)c_;
  T* r_ = (T*)A[35]; (void)r_;
  T* q_ = (T*)A[36]; (void)q_;
  const auto i = Ib{lo0 - n1, hi0 - n1}.shift(n1);
  const auto j = (Jb{lo1 + 2, hi1 - 3} - 2) + 3;
  auto u = make_md_span(u_, gu, Jb{lo1 - xl1, hi1 + xh1}, Ib{lo0 - xl0, hi0 + xh0}); (void)u;
  auto v = make_md_span(v_, gv, j, i); (void)v;
  auto c = make_md_span(c_, gc, j, i); (void)c;
  auto r = make_md_span(r_, gr, Jb{lo1 - yl1, hi1 + yh1}, Ib{lo0 - yl0, hi0 + yh0}); (void)r;
  auto q = make_md_span(q_, gr, Jb{lo1 - xl1, hi1 + xh1}, Ib{lo0 - xl0, hi0 + xh0}); (void)q;
  with_domain(i, j)(r = T(0.5) * u.shift_x(n1) + 2 * v.grad_x(h0, up));
  }
template <class T> static void e08_s14(void** A) {
  const int lo0 = *(int*)A[0]; (void)lo0;
  const int hi0 = *(int*)A[1]; (void)hi0;
  const int lo1 = *(int*)A[2]; (void)lo1;
  const int hi1 = *(int*)A[3]; (void)hi1;
  const int lo2 = *(int*)A[4]; (void)lo2;
  const int hi2 = *(int*)A[5]; (void)hi2;
  const int s0 = *(int*)A[6]; (void)s0;
  const int s1 = *(int*)A[7]; (void)s1;
  const int s2 = *(int*)A[8]; (void)s2;
  const int gu = *(int*)A[9]; (void)gu;
  const int gv = *(int*)A[10]; (void)gv;
  const int gc = *(int*)A[11]; (void)gc;
  const int gr = *(int*)A[12]; (void)gr;
  const int xl0 = *(int*)A[13]; (void)xl0;
  const int xh0 = *(int*)A[14]; (void)xh0;
  const int xl1 = *(int*)A[15]; (void)xl1;
  const int xh1 = *(int*)A[16]; (void)xh1;
  const int xl2 = *(int*)A[17]; (void)xl2;
  const int xh2 = *(int*)A[18]; (void)xh2;
  const int yl0 = *(int*)A[19]; (void)yl0;
  const int yh0 = *(int*)A[20]; (void)yh0;
  const int yl1 = *(int*)A[21]; (void)yl1;
  const int yh1 = *(int*)A[22]; (void)yh1;
  const int yl2 = *(int*)A[23]; (void)yl2;
  const int yh2 = *(int*)A[24]; (void)yh2;
  const int n1 = *(int*)A[25]; (void)n1;
  const int n2 = *(int*)A[26]; (void)n2;
  const T a = *(T*)A[27]; (void)a;
  const T b = *(T*)A[28]; (void)b;
  const T h0 = *(T*)A[29]; (void)h0;
  const T h1 = *(T*)A[30]; (void)h1;
  const T h2 = *(T*)A[31]; (void)h2;
  T* u_ = (T*)A[32]; (void)u_;
  T* v_ = (T*)A[33]; (void)v_;
  T* c_ = (T*)A[34]; (void)c_;
  T* r_ = (T*)A[35]; (void)r_;
  T* q_ = (T*)A[36]; (void)q_;
  const auto i = Ib{lo0 + 1, hi0 - 1}.expand(1);
  const auto j = Jb{lo1 + 2, hi1} + -2;
  const auto k = Kb{lo2, hi2 + 1, 1, false};
  auto u = make_md_span(u_, gu, Kb{lo2 - xl2, hi2 + xh2}, Jb{lo1 - xl1, hi1 + xh1 + 1}, Ib{lo0 - xl0, hi0 + xh0}); (void)u;
  auto v = make_md_span(v_, gv, k, i, j); (void)v;
  auto c = make_md_span(c_, gc, j, i, k); (void)c;
  auto r = make_md_span(r_, gr, Jb{lo1 - yl1, hi1 + yh1}, Ib{lo0 - yl0, hi0 + yh0}, Kb{lo2 - yl2, hi2 + yh2}); (void)r;
  auto q = make_md_span(q_, gr, Kb{lo2 - xl2, hi2 + xh2}, Ib{lo0 - xl0, hi0 + xh0}, Jb{lo1 - xl1, hi1 + xh1}); (void)q;
  with_domain(i, k, j)(r = 1.5 * u.shift_z(n1) + 3 * v.shift_x(n1) + a * c.grad_z(h2, down));
  }
template <class T> static void e08_s22(void** A) {
  const int lo0 = *(int*)A[0]; (void)lo0;
  const int hi0 = *(int*)A[1]; (void)hi0;
  const int lo1 = *(int*)A[2]; (void)lo1;
  const int hi1 = *(int*)A[3]; (void)hi1;
  const int lo2 = *(int*)A[4]; (void)lo2;
  const int hi2 = *(int*)A[5]; (void)hi2;
  const int s0 = *(int*)A[6]; (void)s0;
  const int s1 = *(int*)A[7]; (void)s1;
  const int s2 = *(int*)A[8]; (void)s2;
  const int gu = *(int*)A[9]; (void)gu;
  const int gv = *(int*)A[10]; (void)gv;
  const int gc = *(int*)A[11]; (void)gc;
  const int gr = *(int*)A[12]; (void)gr;
  const int xl0 = *(int*)A[13]; (void)xl0;
  const int xh0 = *(int*)A[14]; (void)xh0;
  const int xl1 = *(int*)A[15]; (void)xl1;
  const int xh1 = *(int*)A[16]; (void)xh1;
  const int xl2 = *(int*)A[17]; (void)xl2;
  const int xh2 = *(int*)A[18]; (void)xh2;
  const int yl0 = *(int*)A[19]; (void)yl0;
  const int yh0 = *(int*)A[20]; (void)yh0;
  const int yl1 = *(int*)A[21]; (void)yl1;
  const int yh1 = *(int*)A[22]; (void)yh1;
  const int yl2 = *(int*)A[23]; (void)yl2;
  const int yh2 = *(int*)A[24]; (void)yh2;
  const int n1 = *(int*)A[25]; (void)n1;
  const int n2 = *(int*)A[26]; (void)n2;
  const T a = *(T*)A[27]; (void)a;
  const T b = *(T*)A[28]; (void)b;
  const T h0 = *(T*)A[29]; (void)h0;
  const T h1 = *(T*)A[30]; (void)h1;
  const T h2 = *(T*)A[31]; (void)h2;
  T* u_ = (T*)A[32]; (void)u_;
  T* v_ = (T*)A[33]; (void)v_;
  T* c_ = (T*)A[34]; (void)c_;
  T* r_ = (T*)A[35]; (void)r_;
  T* q_ = (T*)A[36]; (void)q_;
  const auto i = Ib{lo0, hi0 + 1, 1, false};
  const auto j = Jb{lo1, hi1, 3}.unit_stride();
  const auto k = Kb{lo2 - n1, hi2 - n1}.shift(n1);
  auto u = make_md_span(u_, gu, Ib{lo0 - xl0, hi0 + xh0}, Kb{lo2 - xl2, hi2 + xh2}, Jb{lo1 - xl1, hi1 + xh1}); (void)u;
  auto v = make_md_span(v_, gv, i, k + 1, j); (void)v;
  auto c = make_md_span(c_, gc, i, j, k); (void)c;
  auto r = make_md_span(r_, gr, Jb{lo1 - yl1, hi1 + yh1}, Ib{lo0 - yl0, hi0 + yh0 + 1}, Kb{lo2 - yl2, hi2 + yh2}); (void)r;
  auto q = make_md_span(q_, gr, Kb{lo2 - xl2, hi2 + xh2}, Ib{lo0 - xl0, hi0 + xh0}, Jb{lo1 - xl1, hi1 + xh1}); (void)q;
  with_domain(j, k, i)(r = 1.5 * u.grad_x(h0, up) + 1.5 * v.grad_y(h1) + 1.5 * c.grad_x(h0, up));
  }
template <class T> static void e08_s30(void** A) {
  const int lo0 = *(int*)A[0]; (void)lo0;
  const int hi0 = *(int*)A[1]; (void)hi0;
  const int lo1 = *(int*)A[2]; (void)lo1;
  const int hi1 = *(int*)A[3]; (void)hi1;
  const int lo2 = *(int*)A[4]; (void)lo2;
  const int hi2 = *(int*)A[5]; (void)hi2;
  const int s0 = *(int*)A[6]; (void)s0;
  const int s1 = *(int*)A[7]; (void)s1;
  const int s2 = *(int*)A[8]; (void)s2;
  const int gu = *(int*)A[9]; (void)gu;
  const int gv = *(int*)A[10]; (void)gv;
  const int gc = *(int*)A[11]; (void)gc;
  const int gr = *(int*)A[12]; (void)gr;
  const int xl0 = *(int*)A[13]; (void)xl0;
  const int xh0 = *(int*)A[14]; (void)xh0;
  const int xl1 = *(int*)A[15]; (void)xl1;
  const int xh1 = *(int*)A[16]; (void)xh1;
  const int xl2 = *(int*)A[17]; (void)xl2;
  const int xh2 = *(int*)A[18]; (void)xh2;
  const int yl0 = *(int*)A[19]; (void)yl0;
  const int yh0 = *(int*)A[20]; (void)yh0;
  const int yl1 = *(int*)A[21]; (void)yl1;
  const int yh1 = *(int*)A[22]; (void)yh1;
  const int yl2 = *(int*)A[23]; (void)yl2;
  const int yh2 = *(int*)A[24]; (void)yh2;
  const int n1 = *(int*)A[25]; (void)n1;
  const int n2 = *(int*)A[26]; (void)n2;
  const T a = *(T*)A[27]; (void)a;
  const T b = *(T*)A[28]; (void)b;
  const T h0 = *(T*)A[29]; (void)h0;
  const T h1 = *(T*)A[30]; (void)h1;
  const T h2 = *(T*)A[31]; (void)h2;
  T* u_ = (T*)A[32]; (void)u_;
  T* v_ = (T*)A[33]; (void)v_;
  T* c_ = (T*)A[34]; (void)c_;
  T* r_ = (T*)A[35]; (void)r_;
  T* q_ = (T*)A[36]; (void)q_;
  const auto i = Ib{lo0, hi0};
  const auto j = Jb{lo1, hi1};
  const auto k = Kb{lo2, hi2};
  auto u = make_md_span(u_, gu, Kb{lo2 - xl2, hi2 + xh2}, Jb{lo1 - xl1, hi1 + xh1}, Ib{lo0 - xl0, hi0 + xh0}); (void)u;
  auto v = make_md_span(v_, gv, i, j, k); (void)v;
  auto c = make_md_span(c_, gc, i, k, j); (void)c;
  auto r = make_md_span(r_, gr, Ib{lo0 - yl0, hi0 + yh0}, Jb{lo1 - yl1, hi1 + yh1}, Kb{lo2 - yl2, hi2 + yh2 + 1}); (void)r;
  auto q = make_md_span(q_, gr, Jb{lo1 - xl1, hi1 + xh1}, Ib{lo0 - xl0, hi0 + xh0}, Kb{lo2 - xl2, hi2 + xh2}); (void)q;
  with_domain(j, k, i)(r = b * u.grad_y(h1) + 1.5 * v.grad_x(h0, down) + -1 * c.shift_xz());
  }
template <class T> static void e08_s38(void** A) {
  const int lo0 = *(int*)A[0]; (void)lo0;
  const int hi0 = *(int*)A[1]; (void)hi0;
  const int lo1 = *(int*)A[2]; (void)lo1;
  const int hi1 = *(int*)A[3]; (void)hi1;
  const int lo2 = *(int*)A[4]; (void)lo2;
  const int hi2 = *(int*)A[5]; (void)hi2;
  const int s0 = *(int*)A[6]; (void)s0;
  const int s1 = *(int*)A[7]; (void)s1;
  const int s2 = *(int*)A[8]; (void)s2;
  const int gu = *(int*)A[9]; (void)gu;
  const int gv = *(int*)A[10]; (void)gv;
  const int gc = *(int*)A[11]; (void)gc;
  const int gr = *(int*)A[12]; (void)gr;
  const int xl0 = *(int*)A[13]; (void)xl0;
  const int xh0 = *(int*)A[14]; (void)xh0;
  const int xl1 = *(int*)A[15]; (void)xl1;
  const int xh1 = *(int*)A[16]; (void)xh1;
  const int xl2 = *(int*)A[17]; (void)xl2;
  const int xh2 = *(int*)A[18]; (void)xh2;
  const int yl0 = *(int*)A[19]; (void)yl0;
  const int yh0 = *(int*)A[20]; (void)yh0;
  const int yl1 = *(int*)A[21]; (void)yl1;
  const int yh1 = *(int*)A[22]; (void)yh1;
  const int yl2 = *(int*)A[23]; (void)yl2;
  const int yh2 = *(int*)A[24]; (void)yh2;
  const int n1 = *(int*)A[25]; (void)n1;
  const int n2 = *(int*)A[26]; (void)n2;
  const T a = *(T*)A[27]; (void)a;
  const T b = *(T*)A[28]; (void)b;
  const T h0 = *(T*)A[29]; (void)h0;
  const T h1 = *(T*)A[30]; (void)h1;
  const T h2 = *(T*)A[31]; (void)h2;
  T* u_ = (T*)A[32]; (void)u_;
  T* v_ = (T*)A[33]; (void)v_;
  T* c_ = (T*)A[34]; (void)c_;
  T* r_ = (T*)A[35]; (void)r_;
  T* q_ = (T*)A[36]; (void)q_;
  const auto i = Ib{lo0, hi0};
  const auto j = Jb{lo1, hi1};
  const auto k = Kb{lo2, hi2};
  auto u = make_md_span(u_, gu, Ib{lo0 - xl0, hi0 + xh0}, Kb{lo2 - xl2, hi2 + xh2}, Jb{lo1 - xl1, hi1 + xh1}); (void)u;
  auto v = make_md_span(v_, gv, i, j, k); (void)v;
  auto c = make_md_span(c_, gc, j, i, k); (void)c;
  auto r = make_md_span(r_, gr, Jb{lo1 - yl1, hi1 + yh1}, Ib{lo0 - yl0, hi0 + yh0}, Kb{lo2 - yl2, hi2 + yh2}); (void)r;
  auto q = make_md_span(q_, gr, Kb{lo2 - xl2, hi2 + xh2}, Jb{lo1 - xl1, hi1 + xh1}, Ib{lo0 - xl0, hi0 + xh0}); (void)q;
  auto e = a * u.shift_xy(n1, n2) + 3 * v.shift_yz(n1, n2) + b * c.shift_y(n1);
  with_domain(j, k, i)(r = e, q = e - a);
  }
template <class T> static void e08_s46(void** A) {
  const int lo0 = *(int*)A[0]; (void)lo0;
  const int hi0 = *(int*)A[1]; (void)hi0;
  const int lo1 = *(int*)A[2]; (void)lo1;
  const int hi1 = *(int*)A[3]; (void)hi1;
  const int lo2 = *(int*)A[4]; (void)lo2;
  const int hi2 = *(int*)A[5]; (void)hi2;
  const int s0 = *(int*)A[6]; (void)s0;
  const int s1 = *(int*)A[7]; (void)s1;
  const int s2 = *(int*)A[8]; (void)s2;
  const int gu = *(int*)A[9]; (void)gu;
  const int gv = *(int*)A[10]; (void)gv;
  const int gc = *(int*)A[11]; (void)gc;
  const int gr = *(int*)A[12]; (void)gr;
  const int xl0 = *(int*)A[13]; (void)xl0;
  const int xh0 = *(int*)A[14]; (void)xh0;
  const int xl1 = *(int*)A[15]; (void)xl1;
  const int xh1 = *(int*)A[16]; (void)xh1;
  const int xl2 = *(int*)A[17]; (void)xl2;
  const int xh2 = *(int*)A[18]; (void)xh2;
  const int yl0 = *(int*)A[19]; (void)yl0;
  const int yh0 = *(int*)A[20]; (void)yh0;
  const int yl1 = *(int*)A[21]; (void)yl1;
  const int yh1 = *(int*)A[22]; (void)yh1;
  const int yl2 = *(int*)A[23]; (void)yl2;
  const int yh2 = *(int*)A[24]; (void)yh2;
  const int n1 = *(int*)A[25]; (void)n1;
  const int n2 = *(int*)A[26]; (void)n2;
  const T a = *(T*)A[27]; (void)a;
  const T b = *(T*)A[28]; (void)b;
  const T h0 = *(T*)A[29]; (void)h0;
  const T h1 = *(T*)A[30]; (void)h1;
  const T h2 = *(T*)A[31]; (void)h2;
  T* u_ = (T*)A[32]; (void)u_;
  T* v_ = (T*)A[33]; (void)v_;
  T* c_ = (T*)A[34]; (void)c_;
  T* r_ = (T*)A[35]; (void)r_;
  T* q_ = (T*)A[36]; (void)q_;
  const auto i = Ib{lo0, hi0};
  const auto k = Kb{lo2, hi2};
  auto u = make_md_span(u_, gu, Kb{lo2 - xl2, hi2 + xh2 + 1}, Ib{lo0 - xl0, hi0 + xh0}); (void)u;
  auto v = make_md_span(v_, gv, i, k); (void)v;
  auto c = make_md_span(c_, gc, i, k); (void)c;
  auto r = make_md_span(r_, gr, Kb{lo2 - yl2, hi2 + yh2}, Ib{lo0 - yl0, hi0 + yh0}); (void)r;
  auto q = make_md_span(q_, gr, Kb{lo2 - xl2, hi2 + xh2}, Ib{lo0 - xl0, hi0 + xh0}); (void)q;
  auto e = 1.5 * u.grad_x(h0, down) + 3 * v.grad_x(h0, up) + b * c.shift_xz();
  with_domain(k, i)(r = e, q = e - a);
  }
template <class T> static void e08_s54(void** A) {
  const int lo0 = *(int*)A[0]; (void)lo0;
  const int hi0 = *(int*)A[1]; (void)hi0;
  const int lo1 = *(int*)A[2]; (void)lo1;
  const int hi1 = *(int*)A[3]; (void)hi1;
  const int lo2 = *(int*)A[4]; (void)lo2;
  const int hi2 = *(int*)A[5]; (void)hi2;
  const int s0 = *(int*)A[6]; (void)s0;
  const int s1 = *(int*)A[7]; (void)s1;
  const int s2 = *(int*)A[8]; (void)s2;
  const int gu = *(int*)A[9]; (void)gu;
  const int gv = *(int*)A[10]; (void)gv;
  const int gc = *(int*)A[11]; (void)gc;
  const int gr = *(int*)A[12]; (void)gr;
  const int xl0 = *(int*)A[13]; (void)xl0;
  const int xh0 = *(int*)A[14]; (void)xh0;
  const int xl1 = *(int*)A[15]; (void)xl1;
  const int xh1 = *(int*)A[16]; (void)xh1;
  const int xl2 = *(int*)A[17]; (void)xl2;
  const int xh2 = *(int*)A[18]; (void)xh2;
  const int yl0 = *(int*)A[19]; (void)yl0;
  const int yh0 = *(int*)A[20]; (void)yh0;
  const int yl1 = *(int*)A[21]; (void)yl1;
  const int yh1 = *(int*)A[22]; (void)yh1;
  const int yl2 = *(int*)A[23]; (void)yl2;
  const int yh2 = *(int*)A[24]; (void)yh2;
  const int n1 = *(int*)A[25]; (void)n1;
  const int n2 = *(int*)A[26]; (void)n2;
  const T a = *(T*)A[27]; (void)a;
  const T b = *(T*)A[28]; (void)b;
  const T h0 = *(T*)A[29]; (void)h0;
  const T h1 = *(T*)A[30]; (void)h1;
  const T h2 = *(T*)A[31]; (void)h2;
  T* u_ = (T*)A[32]; (void)u_;
  T* v_ = (T*)A[33]; (void)v_;
  T* c_ = (T*)A[34]; (void)c_;
  T* r_ = (T*)A[35]; (void)r_;
  T* q_ = (T*)A[36]; (void)q_;
  const auto j = Jb{lo1, hi1};
  const auto k = Kb{lo2, hi2};
  auto u = make_md_span(u_, gu, Kb{lo2 - xl2, hi2 + xh2}, Jb{lo1 - xl1, hi1 + xh1}); (void)u;
  auto v = make_md_span(v_, gv, j, k); (void)v;
  auto c = make_md_span(c_, gc, k, j); (void)c;
  auto r = make_md_span(r_, gr, Kb{lo2 - yl2, hi2 + yh2}, Jb{lo1 - yl1, hi1 + yh1}); (void)r;
  auto q = make_md_span(q_, gr, Kb{lo2 - xl2, hi2 + xh2}, Jb{lo1 - xl1, hi1 + xh1}); (void)q;
  with_domain(j, k)(r = a * u.grad_z(h2, up) + b * v.grad_z(h2, up) + b * c.grad_z(h2, down));
  }
template <class T> static void e08_f01(void** A) {
  const int lo0 = *(int*)A[0]; (void)lo0;
  const int hi0 = *(int*)A[1]; (void)hi0;
  const int lo1 = *(int*)A[2]; (void)lo1;
  const int hi1 = *(int*)A[3]; (void)hi1;
  const int lo2 = *(int*)A[4]; (void)lo2;
  const int hi2 = *(int*)A[5]; (void)hi2;
  const int s0 = *(int*)A[6]; (void)s0;
  const int s1 = *(int*)A[7]; (void)s1;
  const int s2 = *(int*)A[8]; (void)s2;
  const int gu = *(int*)A[9]; (void)gu;
  const int gv = *(int*)A[10]; (void)gv;
  const int gc = *(int*)A[11]; (void)gc;
  const int gr = *(int*)A[12]; (void)gr;
  const int xl0 = *(int*)A[13]; (void)xl0;
  const int xh0 = *(int*)A[14]; (void)xh0;
  const int xl1 = *(int*)A[15]; (void)xl1;
  const int xh1 = *(int*)A[16]; (void)xh1;
  const int xl2 = *(int*)A[17]; (void)xl2;
  const int xh2 = *(int*)A[18]; (void)xh2;
  const int yl0 = *(int*)A[19]; (void)yl0;
  const int yh0 = *(int*)A[20]; (void)yh0;
  const int yl1 = *(int*)A[21]; (void)yl1;
  const int yh1 = *(int*)A[22]; (void)yh1;
  const int yl2 = *(int*)A[23]; (void)yl2;
  const int yh2 = *(int*)A[24]; (void)yh2;
  const int n1 = *(int*)A[25]; (void)n1;
  const int n2 = *(int*)A[26]; (void)n2;
  const T a = *(T*)A[27]; (void)a;
  const T b = *(T*)A[28]; (void)b;
  const T h0 = *(T*)A[29]; (void)h0;
  const T h1 = *(T*)A[30]; (void)h1;
  const T h2 = *(T*)A[31]; (void)h2;
  T* u_ = (T*)A[32]; (void)u_;
  T* v_ = (T*)A[33]; (void)v_;
  T* c_ = (T*)A[34]; (void)c_;
  T* r_ = (T*)A[35]; (void)r_;
  T* q_ = (T*)A[36]; (void)q_;
  const auto j = Jb{lo1, hi1};
  const int rt = 2 + (n1 < 0 ? -n1 : n1), st = (n2 < 0 ? -n2 : n2) % rt;
  auto u = make_md_span(u_, gu, Jb{lo1 - xl1, hi1 + xh1}); (void)u;
  auto v = make_md_span(v_, gv, j); (void)v;
  auto c = make_md_span(c_, gc, j); (void)c;
  auto r = make_md_span(r_, gr, Jb{lo1 * rt, hi1 * rt + rt - 1}); (void)r;
  auto q = make_md_span(q_, gr, Jb{lo1 * rt, hi1 * rt + rt - 1}); (void)q;
  with_domain(Jb{lo1 * rt + st, hi1 * rt + rt - 1})(r = u.fine(rt));
  with_domain(Jb{lo1 * rt + st, hi1 * rt + rt - 1})(q = v.fine(rt));
  r.at(lo1 * rt) = c.at(hi1);
  }
template <class T> static void e08_f09(void** A) {
  const int lo0 = *(int*)A[0]; (void)lo0;
  const int hi0 = *(int*)A[1]; (void)hi0;
  const int lo1 = *(int*)A[2]; (void)lo1;
  const int hi1 = *(int*)A[3]; (void)hi1;
  const int lo2 = *(int*)A[4]; (void)lo2;
  const int hi2 = *(int*)A[5]; (void)hi2;
  const int s0 = *(int*)A[6]; (void)s0;
  const int s1 = *(int*)A[7]; (void)s1;
  const int s2 = *(int*)A[8]; (void)s2;
  const int gu = *(int*)A[9]; (void)gu;
  const int gv = *(int*)A[10]; (void)gv;
  const int gc = *(int*)A[11]; (void)gc;
  const int gr = *(int*)A[12]; (void)gr;
  const int xl0 = *(int*)A[13]; (void)xl0;
  const int xh0 = *(int*)A[14]; (void)xh0;
  const int xl1 = *(int*)A[15]; (void)xl1;
  const int xh1 = *(int*)A[16]; (void)xh1;
  const int xl2 = *(int*)A[17]; (void)xl2;
  const int xh2 = *(int*)A[18]; (void)xh2;
  const int yl0 = *(int*)A[19]; (void)yl0;
  const int yh0 = *(int*)A[20]; (void)yh0;
  const int yl1 = *(int*)A[21]; (void)yl1;
  const int yh1 = *(int*)A[22]; (void)yh1;
  const int yl2 = *(int*)A[23]; (void)yl2;
  const int yh2 = *(int*)A[24]; (void)yh2;
  const int n1 = *(int*)A[25]; (void)n1;
  const int n2 = *(int*)A[26]; (void)n2;
  const T a = *(T*)A[27]; (void)a;
  const T b = *(T*)A[28]; (void)b;
  const T h0 = *(T*)A[29]; (void)h0;
  const T h1 = *(T*)A[30]; (void)h1;
  const T h2 = *(T*)A[31]; (void)h2;
  T* u_ = (T*)A[32]; (void)u_;
  T* v_ = (T*)A[33]; (void)v_;
  T* c_ = (T*)A[34]; (void)c_;
  T* r_ = (T*)A[35]; (void)r_;
  T* q_ = (T*)A[36]; (void)q_;
  const auto i = Ib{lo0, hi0};
  const auto j = Jb{lo1, hi1};
  const auto k = Kb{lo2, hi2};
  const int rt = 2 + (n1 < 0 ? -n1 : n1), st = (n2 < 0 ? -n2 : n2) % rt;
  auto u = make_md_span(u_, gu, Ib{lo0 - xl0, hi0 + xh0}, Jb{lo1 - xl1, hi1 + xh1}, Kb{lo2 - xl2, hi2 + xh2}); (void)u;
  auto v = make_md_span(v_, gv, j, i, k); (void)v;
  auto c = make_md_span(c_, gc, j, i, k); (void)c;
  auto r = make_md_span(r_, gr, Ib{lo0 * rt, hi0 * rt + rt - 1}, j, k); (void)r;
  auto q = make_md_span(q_, gr, k, Ib{lo0 * rt, hi0 * rt + rt - 1}, j); (void)q;
  with_domain(Jb{lo1, lo1}, Ib{lo0 * rt + st, hi0 * rt + rt - 1}, Kb{lo2, lo2})(r = u.fine(rt, Jb{hi1, hi1}, Kb{hi2, hi2}));
  with_domain(Jb{hi1, hi1}, Ib{lo0 * rt + st, hi0 * rt + rt - 1}, Kb{hi2, hi2})(q = v.fine(rt, Jb{lo1, lo1}, Kb{lo2, lo2}));
  r.at(lo0 * rt, lo1, lo2) = c.at(hi1, hi0, hi2);
  }
struct Reg { Reg() {
  sim_register_harness("e08_00", 0, 0, e08_00<double>); sim_register_harness("e08_00", 1, 0, e08_00<float>);
  sim_register_harness("e08_08", 0, 0, e08_08<double>); sim_register_harness("e08_08", 1, 0, e08_08<float>);
  sim_register_harness("e08_16", 0, 0, e08_16<double>); sim_register_harness("e08_16", 1, 0, e08_16<float>);
  sim_register_harness("e08_24", 0, 0, e08_24<double>); sim_register_harness("e08_24", 1, 0, e08_24<float>);
  sim_register_harness("e08_32", 0, 0, e08_32<double>); sim_register_harness("e08_32", 1, 0, e08_32<float>);
  sim_register_harness("e08_40", 0, 0, e08_40<double>); sim_register_harness("e08_40", 1, 0, e08_40<float>);
  sim_register_harness("e08_48", 0, 0, e08_48<double>); sim_register_harness("e08_48", 1, 0, e08_48<float>);
  sim_register_harness("e08_56", 0, 0, e08_56<double>); sim_register_harness("e08_56", 1, 0, e08_56<float>);
  sim_register_harness("e08_64", 0, 0, e08_64<double>); sim_register_harness("e08_64", 1, 0, e08_64<float>);
  sim_register_harness("e08_s06", 0, 0, e08_s06<double>); sim_register_harness("e08_s06", 1, 0, e08_s06<float>);
  sim_register_harness("e08_s14", 0, 0, e08_s14<double>); sim_register_harness("e08_s14", 1, 0, e08_s14<float>);
  sim_register_harness("e08_s22", 0, 0, e08_s22<double>); sim_register_harness("e08_s22", 1, 0, e08_s22<float>);
  sim_register_harness("e08_s30", 0, 0, e08_s30<double>); sim_register_harness("e08_s30", 1, 0, e08_s30<float>);
  sim_register_harness("e08_s38", 0, 0, e08_s38<double>); sim_register_harness("e08_s38", 1, 0, e08_s38<float>);
  sim_register_harness("e08_s46", 0, 0, e08_s46<double>); sim_register_harness("e08_s46", 1, 0, e08_s46<float>);
  sim_register_harness("e08_s54", 0, 0, e08_s54<double>); sim_register_harness("e08_s54", 1, 0, e08_s54<float>);
  sim_register_harness("e08_f01", 0, 0, e08_f01<double>); sim_register_harness("e08_f01", 1, 0, e08_f01<float>);
  sim_register_harness("e08_f09", 0, 0, e08_f09<double>); sim_register_harness("e08_f09", 1, 0, e08_f09<float>);
} } reg;
}
