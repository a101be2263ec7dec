// Calling the library from within a parallel region (where it gets fewer threads than it asks for) or a small TBB arena.
#pragma once
#include <omp.h>
#if !defined(VT_TSAN) && !defined(NO_TBB)
#include <tbb/task_arena.h>
#endif
namespace vt {
enum class Within { plain, region, arena1, arena2 };
template <typename F>
static void within(Within how, const F& f) {
  switch (how) {
    case Within::region:
#pragma omp parallel num_threads(2)
      if (omp_get_thread_num() == 0) f();
      return;
#if !defined(VT_TSAN) && !defined(NO_TBB)
    case Within::arena1: tbb::task_arena(1).execute(f); return;
    case Within::arena2: tbb::task_arena(2).execute(f); return;
#endif
    default: f();
  }
}
template <typename Rng>
static Within some_place(Rng& r) {
  const int c = r.in(0, 11);
  return c == 0 ? Within::region : c == 1 ? Within::arena1 : c == 2 ? Within::arena2 : Within::plain;
}
}  // namespace vt
