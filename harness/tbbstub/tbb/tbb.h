// A small stand-in for the parts of oneTBB the library uses, on top of std::thread: real concurrency that ThreadSanitizer sees,
// seeded splitting, execution and join order (VT_SCHED_SEED), within what the TBB specification allows.
#pragma once
#include <algorithm>
#include <atomic>
#include <chrono>
#include <cstdint>
#include <cstdlib>
#include <functional>
#include <iterator>
#include <mutex>
#include <thread>
#include <vector>

namespace tbb {
struct split {};

namespace stub {
inline std::atomic<uint64_t>& counter() { static std::atomic<uint64_t> c{0}; return c; }
inline uint64_t rnd() {
  static const uint64_t seed = getenv("VT_SCHED_SEED") ? strtoull(getenv("VT_SCHED_SEED"), nullptr, 10) : 1;
  uint64_t z = (seed * 1000003 + counter().fetch_add(1, std::memory_order_relaxed)) * 0x9E3779B97F4A7C15ull;
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
inline std::atomic<int>& live() { static std::atomic<int> n{0}; return n; }
inline void jitter() { switch (rnd() % 6) { case 0: std::this_thread::yield(); break; case 1: std::this_thread::sleep_for(std::chrono::microseconds(rnd() % 50)); break; default: break; } }
// run both, concurrently if thread resources allow, otherwise in either order
template <typename F, typename G>
void both(F&& f, G&& g, bool may_swap = true) {
  if (live().load(std::memory_order_relaxed) < 24 && rnd() % 4) {
    live()++;
    std::thread t([&] { jitter(); g(); });
    jitter();
    f();
    t.join();
    live()--;
  } else if (may_swap && rnd() % 2) { g(); f(); }
  else { f(); g(); }
}
}  // namespace stub

template <typename T>
class blocked_range {
public:
  using const_iterator = T;
  using size_type = std::size_t;
  blocked_range(T b, T e, size_type grainsize = 1) : e(e), b(b), g(grainsize) {}
  blocked_range(blocked_range& r, split) : e(r.e), b(r.b + (r.e - r.b) / 2), g(r.g) { r.e = b; }
  T begin() const { return b; }
  T end() const { return e; }
  size_type size() const { return size_type(e - b); }
  size_type grainsize() const { return g; }
  bool empty() const { return !(b < e); }
  bool is_divisible() const { return g < size(); }
private:
  T e, b;
  size_type g;
};

struct auto_partitioner {};
struct simple_partitioner {};
struct static_partitioner {};
struct affinity_partitioner {};

template <typename Range, typename Body>
void parallel_for(const Range& range, const Body& body) {
  if (range.empty()) return;
  if (!range.is_divisible() || stub::rnd() % 5 == 0) {
    Range r(range);
    stub::jitter();
    body(static_cast<const Range&>(r));
    return;
  }
  Range left(range);
  Range right(left, split());
  Body copy(body);  // TBB copies the body for every subrange
  stub::both([&] { parallel_for(left, body); }, [&] { parallel_for(right, copy); });
}
template <typename Range, typename Body, typename P> auto parallel_for(const Range& r, const Body& b, const P&) -> decltype(r.is_divisible(), void()) { parallel_for(r, b); }
template <typename I, typename F>
auto parallel_for(I first, I last, const F& f) -> std::enable_if_t<std::is_integral_v<I>> {
  parallel_for(blocked_range<I>(first, last), [&](const blocked_range<I>& r) { for (I i = r.begin(); i != r.end(); ++i) f(i); });
}

template <typename Range, typename Body>
void parallel_reduce(const Range& range, Body& body) {
  if (range.empty()) return;
  if (!range.is_divisible() || stub::rnd() % 6 == 0) {
    stub::jitter();
    body(range);
    return;
  }
  Range left(range);
  Range right(left, split());
  if (stub::rnd() % 3 == 0) {  // one thread takes both halves with the same body, without splitting it
    parallel_reduce(left, body);
    parallel_reduce(right, body);
    return;
  }
  // The splitting constructor runs concurrently with the reduction of the left half.
  alignas(Body) unsigned char mem[sizeof(Body)];
  Body* rb = nullptr;
  stub::both([&] { parallel_reduce(left, body); },
             [&] { rb = new (mem) Body(body, split()); stub::jitter(); parallel_reduce(right, *rb); }, false);
  body.join(*rb);
  rb->~Body();
}
template <typename Range, typename Body, typename P> auto parallel_reduce(const Range& r, Body& b, const P&) -> decltype(r.is_divisible(), b.join(b), void()) { parallel_reduce(r, b); }
template <typename Range, typename Value, typename RealBody, typename Reduction>
auto parallel_reduce(const Range& range, const Value& identity, const RealBody& f, const Reduction& red) -> Value {
  if (range.empty()) return identity;
  if (!range.is_divisible() || stub::rnd() % 6 == 0) { stub::jitter(); return f(range, identity); }
  Range left(range);
  Range right(left, split());
  Value a = identity, b = identity;
  stub::both([&] { a = parallel_reduce(left, identity, f, red); }, [&] { b = parallel_reduce(right, identity, f, red); });
  return red(a, b);
}

template <typename F, typename G> void parallel_invoke(const F& f, const G& g) { stub::both(f, g); }
template <typename F, typename G, typename... R> void parallel_invoke(const F& f, const G& g, const R&... r) { stub::both(f, [&] { parallel_invoke(g, r...); }); }

template <typename It, typename Comp>
void parallel_sort(It first, It last, const Comp& comp) {
  const auto n = last - first;
  if (n < 64) {
    // unstable: equal elements may come out in any order
    for (auto i = n; i > 1; --i) std::iter_swap(first + (i - 1), first + stub::rnd() % i);
    std::sort(first, last, comp);
    return;
  }
  const It mid = first + n / 2;
  std::nth_element(first, mid, last, comp);
  stub::both([&] { parallel_sort(first, mid, comp); }, [&] { parallel_sort(mid, last, comp); });
}
template <typename It> void parallel_sort(It first, It last) { parallel_sort(first, last, std::less<typename std::iterator_traits<It>::value_type>()); }

class global_control {
public:
  enum parameter { max_allowed_parallelism, thread_stack_size };
  global_control(parameter, std::size_t) {}
};
class task_group {
public:
  ~task_group() { wait(); }
  template <typename F> void run(const F& f) { std::lock_guard<std::mutex> lk(m); th.emplace_back(f); }
  void wait() { for (;;) { std::vector<std::thread> x; { std::lock_guard<std::mutex> lk(m); x.swap(th); } if (x.empty()) return; for (auto& t : x) t.join(); } }
private:
  std::mutex m;
  std::vector<std::thread> th;
};
}  // namespace tbb
namespace oneapi { namespace tbb = ::tbb; }
