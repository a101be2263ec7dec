// merge_sort_omp, quick_sort_omp, radix_sort_tbb, logged for SortTrace.tla.
#include "cases.hpp"
#include "nested.hpp"
#include <deque>
#include <small_gicp/util/sort_omp.hpp>
#ifndef NO_TBB
#include <small_gicp/util/sort_tbb.hpp>
#endif
using namespace small_gicp;
using namespace vt;

static std::atomic<uint32_t> rate{0};
static Within place = Within::plain;
static void sched() {
  const uint32_t r = rate.load(std::memory_order_relaxed);
  if (!r) return;
  static thread_local uint64_t s = std::hash<std::thread::id>()(std::this_thread::get_id());
  s = s * 6364136223846793005ull + 1442695040888963407ull;
  if ((s >> 33) % r == 0) std::this_thread::yield();
}

struct Item { uint64_t key; size_t id; };
struct Heavy { std::string name; uint64_t key; std::unique_ptr<size_t> id_; size_t id;
  Heavy(uint64_t k = 0, size_t i = 0) : name(std::to_string(k) + "abcdefghijklmnop"), key(k), id(i) {}
  Heavy(const Heavy& o) : name(o.name), key(o.key), id(o.id) {}
  Heavy(Heavy&& o) noexcept : name(std::move(o.name)), key(o.key), id(o.id) { o.key = ~0ull; o.id = 999999999; }
  Heavy& operator=(const Heavy& o) { name = o.name; key = o.key; id = o.id; return *this; }
  Heavy& operator=(Heavy&& o) noexcept { name = std::move(o.name); key = o.key; id = o.id; o.key = ~0ull; o.id = 999999999; return *this; }
};

static std::vector<IVec> limbs(const std::vector<uint64_t>& k) {
  uint64_t m = 0;
  for (auto x : k) m = std::max(m, x);
  std::vector<IVec> r;
  for (auto x : k) {
    if (m < (1u << 30)) r.push_back({(long)x});
    else r.push_back({(long)(x >> 44), (long)((x >> 22) & 0x3fffff), (long)(x & 0x3fffff)});
  }
  return r;
}

struct Result { IVec out; bool intact = true; };

template <typename C>
static Result collect(const C& c, const std::vector<uint64_t>& keys) {
  Result r;
  for (auto& x : c) {
    r.out.push_back(x.id > 2000000000 ? -1 : (long)x.id);
    r.intact = r.intact && x.id < keys.size() && x.key == keys[x.id];
    if constexpr (std::is_same_v<typename C::value_type, Heavy>) r.intact = r.intact && x.name == std::to_string(x.key) + "abcdefghijklmnop";
  }
  return r;
}

template <typename C, typename Less>
static Result cmp_sort(const std::vector<uint64_t>& keys, bool merge, int threads, Less less) {
  C c;
  for (size_t i = 0; i < keys.size(); i++) c.push_back({keys[i], i});
  const auto comp = [less](const auto& a, const auto& b) { sched(); return less(a.key, b.key); };
  within(place, [&] {
    if (merge) merge_sort_omp(c.begin(), c.end(), comp, threads);
    else quick_sort_omp(c.begin(), c.end(), comp, threads);
  });
  return collect(c, keys);
}

#ifndef NO_TBB
template <typename Key, int Bits, int Tile>
static Result radix(const std::vector<uint64_t>& keys, RadixSortBuffers<Item>* buf) {
  std::vector<Item> c;
  for (size_t i = 0; i < keys.size(); i++) c.push_back({keys[i], i});
  const auto key = [](const Item& x) { return static_cast<Key>(x.key); };
  within(place, [&] {
    if (buf) radix_sort_tbb<Item, decltype(key), Bits, Tile>(c.data(), c.data() + c.size(), key, *buf);
    else radix_sort_tbb<Item, decltype(key), Bits, Tile>(c.data(), c.data() + c.size(), key);
  });
  return collect(c, keys);
}
template <typename Key>
static Result radix_any(const std::vector<uint64_t>& keys, int kind, RadixSortBuffers<Item>* buf) {
  switch (kind) {
    case 0: return radix<Key, 8, 256>(keys, nullptr);
    case 1: return radix<Key, 8, 256>(keys, buf);
    case 2: return radix<Key, 4, 256>(keys, buf);
    case 3: return radix<Key, 1, 2>(keys, buf);
    case 4: return radix<Key, 2, 3>(keys, buf);
    case 5: return radix<Key, 5, 64>(keys, buf);
    default: return radix<Key, 3, 1>(keys, buf);
  }
}
#endif

int main(int argc, char** argv) {
  Args a(argc, argv);
  Trace t(a.s("out"));
  Rng r(a.i("seed", 1));
  rate = a.i("jitter", 0);
  const std::string backend = a.s("backend", "omp");
#ifndef NO_TBB
  RadixSortBuffers<Item> reused;
#endif
  auto emit = [&](const std::vector<uint64_t>& ordkeys, const Result& res, const std::string& what, int threads) {
    Ev(t, "sort").str("what", what).i("threads", threads).vv("keys", limbs(ordkeys)).v("out", res.out).b("intact", res.intact);
  };
  auto one = [&](std::vector<uint64_t> keys, int width) {
    const int threads = r.pick(std::vector<int>{1, 2, 3, 4, 8, 16, 33, 70});
    place = some_place(r);
    if (backend == "tbb") {
#ifndef NO_TBB
      const uint64_t mask = width == 64 ? ~0ull : (1ull << width) - 1;
      for (auto& k : keys) k &= mask;
      const int kind = (width == 64 && keys.size() > 3000) ? r.in(0, 2) : r.in(0, 6);
      RadixSortBuffers<Item> fresh;
      RadixSortBuffers<Item>* buf = r.chance(1, 2) ? &reused : &fresh;
      Result res;
      if (width == 8) res = radix_any<uint8_t>(keys, kind, buf);
      else if (width == 16) res = radix_any<uint16_t>(keys, kind, buf);
      else if (width == 32) res = radix_any<uint32_t>(keys, kind, buf);
      else res = radix_any<uint64_t>(keys, kind, buf);
      emit(keys, res, "radix" + std::to_string(kind) + "_" + std::to_string(width), 0);
#endif
      return;
    }
    const bool merge = r.chance(1, 2);
    const int order = r.in(0, 3), cont = r.in(0, 3);
    auto run = [&](auto less) {
      if (cont == 0) return cmp_sort<std::deque<Item>>(keys, merge, threads, less);
      if (cont == 1) return cmp_sort<std::vector<Heavy>>(keys, merge, threads, less);
      return cmp_sort<std::vector<Item>>(keys, merge, threads, less);
    };
    std::vector<uint64_t> ord = keys;
    Result res;
    if (order == 1) {
      uint64_t m = 0;
      for (auto k : keys) m = std::max(m, k);
      for (auto& k : ord) k = m - k;
      res = run([](uint64_t x, uint64_t y) { return x > y; });
    } else if (order == 2) {
      for (auto& k : ord) k = k % 7;
      res = run([](uint64_t x, uint64_t y) { return x % 7 < y % 7; });
    } else {
      res = run([](uint64_t x, uint64_t y) { return x < y; });
    }
    emit(ord, res, std::string(merge ? "merge" : "quick") + std::to_string(order), threads);
  };

  if (a.s("mode") == "gen") {
    auto cases = read_cases(a.s("cases"));
    for (size_t c = a.i("shard"); c < cases.size(); c += a.i("nshards", 1)) {
      std::vector<uint64_t> k(cases[c].begin(), cases[c].end());
      one(k, r.pick(std::vector<int>{8, 16, 32, 64}));
    }
  } else {
    const int iters = a.i("iters", 10), maxn = a.i("maxn", 5000), minn = a.i("minn", 0);
    for (int it = 0; it < iters; it++) {
      int n = r.pick(std::vector<int>{0, 1, 2, 3, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 1026, 2047, 2048, 2049, 3000, 4096, 4100});
      if (r.chance(1, 2)) n = r.in(0, maxn);
      n = minn ? static_cast<int>(r.in(minn, maxn)) : std::min(n, maxn);
      const int width = r.pick(std::vector<int>{8, 16, 32, 64});
      const int kind = r.in(0, 8);
      std::vector<uint64_t> k(n);
      for (int i = 0; i < n; i++) {
        const uint64_t x = r.next();
        k[i] = kind == 0 ? x : kind == 1 ? x % 5 : kind == 2 ? 7 : kind == 3 ? i : kind == 4 ? n - i : kind == 5 ? x % 1000 : kind == 6 ? (x & 1 ? ~0ull : 0) : kind == 7 ? (x & 0xff00000000ff00ffull) : (i * 8 / std::max(1, n) % 2 ? x % 100 : 50);
        if (backend != "tbb") k[i] &= (1ull << 62) - 1;
      }
      one(k, width);
    }
  }
  Ev(t, "end");
}
