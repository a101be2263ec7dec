// A user-defined point cloud (through the Traits interface) whose accesses are scheduling points.
#pragma once
#include "trace.hpp"
#include <small_gicp/points/traits.hpp>
namespace vt {
inline std::atomic<uint32_t>& jitter_rate() { static std::atomic<uint32_t> r{0}; return r; }  // one access in r yields; 0: never
struct JitterCloud {
  std::vector<Eigen::Vector4d> points;
  void sched() const {
    const uint32_t r = jitter_rate().load(std::memory_order_relaxed);
    if (!r) return;
    static thread_local uint64_t s = std::hash<std::thread::id>()(std::this_thread::get_id());
    s = s * 6364136223846793005ull + 1442695040888963407ull;
    if ((s >> 33) % r == 0) { if ((s >> 20) & 3) std::this_thread::yield(); else std::this_thread::sleep_for(std::chrono::microseconds((s >> 24) % 80)); }
  }
};
}  // namespace vt
namespace small_gicp {
namespace traits {
template <>
struct Traits<vt::JitterCloud> {
  static size_t size(const vt::JitterCloud& c) { return c.points.size(); }
  static bool has_points(const vt::JitterCloud& c) { return !c.points.empty(); }
  static Eigen::Vector4d point(const vt::JitterCloud& c, size_t i) { c.sched(); return c.points[i]; }
};
}
}
