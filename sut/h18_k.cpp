// Device kernels of the vector histories.
#include "md_device_span.hpp"
template <class T, int S> struct Dev { static void affine(T* p, const int* b, int g, T m, T c); static void sub(T* p, T* r, const int* b, int g, T c); static void fill(T* p, const int* b, int g, T c); };
void dev_offs(int* p, int no, int nd, int c) { const auto j = Jb{0, no - 1}; const auto i = Ib{0, nd - 1}; auto s = make_md_span(p, j, i); with_domain(j, i)(s = s + c); }
template <class T, int S, class F> static void on(T* p, T* r, const int* b, int g, F f) {
  const auto i = Ib{b[0], b[1]}; const auto j = Jb{b[2], b[3]}; const auto k = Kb{b[4], b[5]};
  if constexpr (S == 1) { auto s = make_md_span(p, g, i), t = make_md_span(r, g, i); f(s, t, i); }
  else if constexpr (S == 2) { auto s = make_md_span(p, g, j, i), t = make_md_span(r, g, j, i); f(s, t, j, i); }
  else { auto s = make_md_span(p, g, i, k, j), t = make_md_span(r, g, i, k, j); f(s, t, k, j, i); } }
template <class T, int S> void Dev<T, S>::affine(T* p, const int* b, int g, T m, T c) { on<T, S>(p, p, b, g, [=](auto& s, auto&, auto... d) { with_domain(d...)(s = s * m + c); }); }
template <class T, int S> void Dev<T, S>::sub(T* p, T* r, const int* b, int g, T c) { on<T, S>(p, r, b, g, [=](auto& s, auto& t, auto... d) { with_domain(d...)(s = t - c); }); }
template <class T, int S> void Dev<T, S>::fill(T* p, const int* b, int g, T c) { on<T, S>(p, p, b, g, [=](auto& s, auto&, auto... d) { with_domain(d...)(s = c); }); }
template struct Dev<double, 1>; template struct Dev<double, 2>; template struct Dev<double, 3>; template struct Dev<float, 1>; template struct Dev<float, 2>; template struct Dev<float, 3>;
