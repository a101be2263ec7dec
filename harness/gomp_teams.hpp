// Observes the sizes of the OpenMP teams that are requested (libgomp ABI), and passes the calls on.
#pragma once
#include <dlfcn.h>
#include <omp.h>
#include "trace.hpp"
namespace vt {
struct Teams {
  static std::mutex& m() { static std::mutex x; return x; }
  static IVec& v() { static IVec x; return x; }
  static bool& on() { static bool x = false; return x; }
  static void note(unsigned n) {
    if (!on()) return;
    std::lock_guard<std::mutex> lk(m());
    const long k = n ? n : omp_get_max_threads();
    if (v().size() < 1000) v().push_back(k);
  }
  static void start() { v().clear(); on() = true; }
  static IVec stop() { on() = false; IVec r = v(); std::sort(r.begin(), r.end()); r.erase(std::unique(r.begin(), r.end()), r.end()); return r; }
};
template <typename F> inline F next_sym(const char* n) { return reinterpret_cast<F>(dlsym(RTLD_NEXT, n)); }
}  // namespace vt
extern "C" {
void GOMP_parallel(void (*fn)(void*), void* data, unsigned n, unsigned flags) {
  vt::Teams::note(n);
  static auto f = vt::next_sym<void (*)(void (*)(void*), void*, unsigned, unsigned)>("GOMP_parallel");
  f(fn, data, n, flags);
}
#define VT_LOOP(NAME)                                                                                                                         \
  void GOMP_parallel_loop_##NAME(void (*fn)(void*), void* data, unsigned n, long a, long b, long c, long d, unsigned flags) {               \
    vt::Teams::note(n);                                                                                                                      \
    static auto f = vt::next_sym<void (*)(void (*)(void*), void*, unsigned, long, long, long, long, unsigned)>("GOMP_parallel_loop_" #NAME); \
    f(fn, data, n, a, b, c, d, flags);                                                                                                       \
  }
VT_LOOP(static) VT_LOOP(dynamic) VT_LOOP(guided) VT_LOOP(nonmonotonic_dynamic) VT_LOOP(nonmonotonic_guided)
#undef VT_LOOP
#define VT_LOOP(NAME)                                                                                                                   \
  void GOMP_parallel_loop_##NAME(void (*fn)(void*), void* data, unsigned n, long a, long b, long c, unsigned flags) {                  \
    vt::Teams::note(n);                                                                                                                 \
    static auto f = vt::next_sym<void (*)(void (*)(void*), void*, unsigned, long, long, long, unsigned)>("GOMP_parallel_loop_" #NAME);  \
    f(fn, data, n, a, b, c, flags);                                                                                                     \
  }
VT_LOOP(runtime) VT_LOOP(nonmonotonic_runtime) VT_LOOP(maybe_nonmonotonic_runtime)
#undef VT_LOOP
void GOMP_parallel_sections(void (*fn)(void*), void* data, unsigned n, unsigned count, unsigned flags) {
  vt::Teams::note(n);
  static auto f = vt::next_sym<void (*)(void (*)(void*), void*, unsigned, unsigned, unsigned)>("GOMP_parallel_sections");
  f(fn, data, n, count, flags);
}
}
