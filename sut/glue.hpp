// Registers the device kernels under test with the simulator.  The argument
// list of each kernel is deduced, so a call is an array of pointers.
#pragma once
#include <cstddef>
#include <utility>
extern "C" void sim_register(int id, int ty, void (*inv)(void**));
namespace glue {
template <class A> struct Cv { static A get(void* p) { return *static_cast<A*>(p); } };
template <class A> struct Cv<A&> { static A& get(void* p) { return *static_cast<A*>(p); } };
template <class A> struct Cv<A*> { static A* get(void* p) { return static_cast<A*>(p); } };
template <class A> struct Cv<A* const&> { static A* get(void* p) { return static_cast<A*>(p); } };
template <auto F, class... A, std::size_t... I> void call(void (*)(A...), void** a, std::index_sequence<I...>) { F(Cv<A>::get(a[I])...); }
template <auto F, class... A> auto seq(void (*)(A...)) { return std::index_sequence_for<A...>{}; }
template <auto F> void inv(void** a) { call<F>(F, a, decltype(seq<F>(F)){}); }
template <auto F> struct Reg { Reg(int id, int ty) { sim_register(id, ty, inv<F>); } };
}
#define KERNEL(id, cls, mth) static glue::Reg<&cls<double>::mth> rd_##id(id, 0); static glue::Reg<&cls<float>::mth> rf_##id(id, 1);
