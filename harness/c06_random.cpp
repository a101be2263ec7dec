// Random sampling, logged for RandomTrace.tla.
#include <random>
#include "cases.hpp"
#include "jitter_cloud.hpp"
#include <small_gicp/points/point_cloud.hpp>
#include <small_gicp/points/eigen.hpp>
#include <small_gicp/util/downsampling.hpp>
using namespace small_gicp;
using namespace vt;

// A legal but unusual generator: 8 bits, does not start at zero.
struct Small {
  using result_type = uint32_t;
  std::mt19937 e;
  explicit Small(uint32_t s) : e(s) {}
  static constexpr uint32_t min() { return 3; }
  static constexpr uint32_t max() { return 258; }
  uint32_t operator()() { return 3 + (e() & 255); }
};

struct Cloud { std::vector<Eigen::Vector4d> p; IVec cls; std::map<std::array<double, 4>, long> of; };
static std::array<double, 4> arr(const Eigen::Vector4d& v) { return {v[0], v[1], v[2], v[3]}; }

static Cloud make(Trace& t, Rng& r, int n, bool dups) {
  Cloud c;
  for (int i = 0; i < n; i++) {
    Eigen::Vector4d v(r.in(-1000000, 1000000) / 7.0, r.in(-1000000, 1000000) / 3.0, r.in(-50, 50) * 1e-3, 1.0);
    if (dups && i && r.chance(1, 3)) v = c.p[r.in(0, i - 1)];
    c.p.push_back(v);
    auto it = c.of.emplace(arr(v), static_cast<long>(c.of.size())).first;
    c.cls.push_back(it->second);
  }
  Ev(t, "cloud").v("pts", c.cls);
  return c;
}

template <typename G>
static void draw(Trace& t, const Cloud& c, size_t req, const std::string& name, G gen, int how, bool remember, bool collect) {
  std::vector<Eigen::Vector4d> out;
  bool ok = true;
  if (how == 0) {
    const PointCloud in(c.p);
    const auto o = random_sampling(in, req, gen);
    out = o->points;
    ok = in.points == c.p && o->normals.size() == out.size() && o->covs.size() == out.size();
  } else if (how == 1) {
    JitterCloud in;
    in.points = c.p;
    out = random_sampling<JitterCloud, PointCloud>(in, req, gen)->points;
    ok = in.points == c.p;
  } else {
    Eigen::MatrixXd in(c.p.size(), 3 + req % 2);
    for (size_t i = 0; i < c.p.size(); i++) in.row(i) = c.p[i].head(in.cols()).transpose();
    const auto o = random_sampling<Eigen::MatrixXd, PointCloud>(in, req, gen);
    out = o->points;
  }
  IVec idx;
  for (auto& v : out) { auto it = c.of.find(arr(v)); idx.push_back(it == c.of.end() ? -1 : it->second); }
  Ev(t, "sample").str("gen", name).i("req", std::min<size_t>(req, 1000000)).v("out", idx).b("ok", ok).b("remember", remember).b("collect", collect);
}

int main(int argc, char** argv) {
  Args a(argc, argv);
  Trace t(a.s("out"));
  Rng r(a.i("seed", 1));
  std::cerr.setstate(std::ios::failbit);
  // every subset of small clouds
  for (int n = 0; n <= 6; n++) {
    const Cloud c = make(t, r, n, false);
    for (int k = 0; k <= n + 2; k++) {
      for (int s = 0; s < 300; s++) {
        const uint32_t seed = r.next();
        if (s % 2) draw(t, c, k, "m" + std::to_string(seed), std::mt19937(seed), s % 3, false, true);
        else draw(t, c, k, "s" + std::to_string(seed), Small(seed), s % 3, false, true);
      }
      Ev(t, "cover").i("req", k);
    }
  }
  // clouds of more than 2^16 points
  for (int i = 0; i < a.i("huge", 0); i++) {
    const int n = r.in(66000, 90000);
    const Cloud c = make(t, r, n, false);
    const uint32_t seed = r.next();
    for (int rep = 0; rep < 2; rep++) draw(t, c, n - 20, "h" + std::to_string(seed), std::mt19937(seed), rep, true, false);
    draw(t, c, 5000, "i" + std::to_string(seed), std::mt19937_64(seed), i % 3, true, false);
    draw(t, c, n, "j" + std::to_string(seed), std::mt19937_64(seed), i % 3, true, false);
  }
  // larger clouds, equal generator states, all generators
  for (int i = 0; i < a.i("iters", 60); i++) {
    const int n = r.pick(IVec{1, 2, 5, 17, 100, 255, 256, 257, 400, static_cast<long>(a.i("maxn", 700))});
    const Cloud c = make(t, r, n, r.chance(1, 3));
    for (int j = 0; j < 4; j++) {
      const size_t req = r.pick(std::vector<size_t>{0, 1, static_cast<size_t>(n) / 2, static_cast<size_t>(n) - 1, static_cast<size_t>(n), static_cast<size_t>(n) + 1, static_cast<size_t>(r.in(0, n)), ~size_t(0)});
      const uint32_t seed = r.next();
      for (int rep = 0; rep < 6; rep++) {
        switch (j) {
          case 0: draw(t, c, req, "a" + std::to_string(seed), std::mt19937(seed), rep % 3, true, false); break;
          case 1: draw(t, c, req, "b" + std::to_string(seed), std::mt19937_64(seed), rep % 3, true, false); break;
          case 2: draw(t, c, req, "c" + std::to_string(seed), std::minstd_rand(seed), rep % 3, true, false); break;
          default: draw(t, c, req, "d" + std::to_string(seed), Small(seed), rep % 3, true, false);
        }
      }
    }
  }
  Ev(t, "end");
  return 0;
}
