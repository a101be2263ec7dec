// Voxel-grid downsampling (serial, OpenMP, TBB), logged for SamplingTrace.tla.
#include "cases.hpp"
#include "jitter_cloud.hpp"
#include "nested.hpp"
#include <small_gicp/points/point_cloud.hpp>
#include <small_gicp/util/downsampling.hpp>
#include <small_gicp/util/downsampling_omp.hpp>
#ifndef NO_TBB
#include <small_gicp/util/downsampling_tbb.hpp>
#endif
using namespace small_gicp;
using namespace vt;

constexpr double SUB = 1024.0;  // local offsets are multiples of leaf/SUB
struct Cell { IVec v; std::vector<IVec> l; };

// Lowest terms of the mean (mx,my,mz) in local units: smallest q such that q*mean is integral.
static IVec lowest(const double m[3], const double mag[3], long maxq) {
  for (long q = 1; q <= maxq; q++) {
    bool ok = true;
    for (int a = 0; a < 3 && ok; a++) ok = std::abs(m[a] * q - std::round(m[a] * q)) <= q * mag[a] * std::ldexp(1.0, -48) + 1e-12;
    if (ok) return {q, std::lround(m[0] * q), std::lround(m[1] * q), std::lround(m[2] * q)};
  }
  return {NOT_EXACT, 0, 0, 0};
}

template <typename In>
static std::shared_ptr<PointCloud> call(const In& in, double leaf, const std::string& backend, int threads) {
  if (backend == "omp") return voxelgrid_sampling_omp<In, PointCloud>(in, leaf, threads);
#ifndef NO_TBB
  if (backend == "tbb") return voxelgrid_sampling_tbb<In, PointCloud>(in, leaf);
#endif
  return voxelgrid_sampling<In, PointCloud>(in, leaf);
}

static void go(Trace& t, Rng& r, std::vector<Cell> cells, double leaf, const std::string& backend, int threads, bool native) {
  std::sort(cells.begin(), cells.end(), [](const Cell& a, const Cell& b) { return a.v < b.v; });
  std::vector<Eigen::Vector4d> pts;
  for (auto& c : cells)
    for (auto& l : c.l) pts.emplace_back((c.v[0] + l[0] / SUB) * leaf, (c.v[1] + l[1] / SUB) * leaf, (c.v[2] + l[2] / SUB) * leaf, 1.0);
  if (!r.chance(1, 5)) for (size_t i = pts.size(); i > 1; i--) std::swap(pts[i - 1], pts[r.in(0, i - 1)]);
  std::shared_ptr<PointCloud> out;
  std::vector<Eigen::Vector4d> before = pts;
  bool kept = true;
  const Within place = backend == "serial" ? Within::plain : some_place(r);
  if (native) {
    PointCloud in(pts);
    within(place, [&] { out = call(in, leaf, backend, threads); });
    kept = in.points == before;
  } else {
    JitterCloud in;
    in.points = pts;
    within(place, [&] { out = call(in, leaf, backend, threads); });
    kept = in.points == before;
  }
  std::map<IVec, std::vector<IVec>> got;
  bool w = kept && out->normals.size() == out->points.size() && out->covs.size() == out->points.size();
  for (size_t i = 0; i < out->size(); i++) {
    const auto& p = out->points[i];
    w = w && std::abs(p[3] - 1.0) < 1e-12;
    IVec v(3);
    double m[3], mag[3];
    for (int a = 0; a < 3; a++) {
      const double u = p[a] / leaf;
      const double f = std::isfinite(u) && std::abs(u) < 1e9 ? std::floor(u) : 1e9;
      v[a] = static_cast<long>(f);
      m[a] = (u - f) * SUB;
      mag[a] = (std::abs(u) + 1) * SUB;
    }
    got[v].push_back(lowest(m, mag, static_cast<long>(pts.size())));
  }
  std::string cs = "[", os = "[";
  auto vec = [](const IVec& x) { std::string s = "["; for (size_t i = 0; i < x.size(); i++) { if (i) s += ","; s += std::to_string(x[i]); } return s + "]"; };
  bool first = true;
  for (auto& c : cells) {
    if (!first) cs += ",";
    first = false;
    cs += "{\"v\":" + vec(c.v) + ",\"l\":[";
    for (size_t i = 0; i < c.l.size(); i++) { if (i) cs += ","; cs += vec(c.l[i]); }
    cs += "]}";
  }
  first = true;
  for (auto& g : got) {
    if (!first) os += ",";
    first = false;
    os += "{\"v\":" + vec(g.first) + ",\"parts\":[";
    for (size_t i = 0; i < g.second.size(); i++) { if (i) os += ","; os += vec(g.second[i]); }
    os += "]}";
  }
  Ev(t, "vg").i("n", pts.size()).i("threads", threads).str("backend", backend).raw("cells", cs + "]").raw("outs", os + "]").b("serial", backend == "serial").b("w", w);
}

int main(int argc, char** argv) {
  Args a(argc, argv);
  Trace t(a.s("out"));
  Rng r(a.i("seed", 1));
  std::cerr.setstate(std::ios::failbit);
  jitter_rate() = a.i("jitter", 0);
  const std::string backend = a.s("backend", "serial");
  const long LO = -1048576, HI = 1048575;
  const std::vector<double> leaves = {1.0, 0.25, 0.125, 8.0, std::ldexp(1.0, -10), std::ldexp(1.0, -21), std::ldexp(1.0, -24), 0.1, 0.3, 1.7};
  auto pow2 = [](double l) { int e; return std::frexp(l, &e) == 0.5; };

  if (a.s("mode") == "gen") {
    // every sequence of voxels enumerated by TLC; codes of GenVoxels.tla
    auto cases = read_cases(a.s("cases"));
    for (size_t c = a.i("shard"); c < cases.size(); c += a.i("nshards", 1)) {
      std::map<IVec, std::vector<IVec>> m;
      for (size_t j = 0; j + 2 < cases[c].size(); j += 3) {
        IVec v{cases[c][j], cases[c][j + 1], cases[c][j + 2]};
        auto& l = m[v];
        l.push_back({(long)(1 << l.size()), (long)(c % 7), (long)(j % 5)});
      }
      std::vector<Cell> cells;
      for (auto& x : m) cells.push_back({x.first, x.second});
      go(t, r, cells, leaves[c % 7], backend, 1 + c % 4, c % 2);
    }
    Ev(t, "end");
    return 0;
  }

  const int iters = a.i("iters", 10), maxn = a.i("maxn", 4000), minn = a.i("minn", 0);
  for (int it = 0; it < iters; it++) {
    double leaf = r.pick(leaves);
    int n = r.pick(std::vector<int>{1, 2, 3, 50, 1023, 1024, 1025, 2047, 2048, 2049, 3073, 4096, 4097});
    if (r.chance(1, 2)) n = r.in(0, maxn);
    n = minn ? static_cast<int>(r.in(minn, maxn)) : std::min(n, maxn);
    // average points per voxel, and the size of the region
    int per = r.pick(std::vector<int>{1, 1, 2, 5, 40, 400, 100000});
    if (per >= 40 && !pow2(leaf)) leaf = 0.5;  // sums over large cells must be exact
    long span = r.pick(std::vector<long>{1, 3, 20, 1000});
    if (minn) { per = it % 2 ? r.pick(std::vector<int>{2, 5}) : 1; span = it % 2 ? 50 : 200; }   // (more than 65536 voxels)
    const int kind = minn && it % 2 == 0 ? 0 : r.in(0, 3);        // 0: local region, 1: with extreme voxels, 2: with out-of-range voxels, 3: mostly out of range
    std::map<IVec, std::vector<IVec>> m;
    int left = n;
    while (left > 0) {
      int c = per >= 100000 ? std::min(left, 2500) : std::min<int>(left, 1 + r.in(0, 2 * per - 2 > 0 ? 2 * per - 2 : 0));
      IVec v{r.in(-span, span), r.in(-span, span), r.in(-span, span)};
      bool extreme = false;
      if (kind == 1 && r.chance(1, 3)) { v[r.in(0, 2)] = r.pick(std::vector<long>{LO, LO + 1, HI, HI - 1, 0, -1}); extreme = true; }
      if ((kind == 2 && r.chance(1, 4)) || (kind == 3 && !r.chance(1, 20))) { v[r.in(0, 2)] = r.pick(std::vector<long>{LO - 1, HI + 1, LO - 2, HI + 2, 2 * LO, 2 * HI + 1, 2 * HI + 3, 4 * HI + 4, 1L << 28, -(1L << 28)}); extreme = true; }
      if (extreme) c = std::min(c, 40);
      if (!pow2(leaf)) { c = std::min(c, 12); auto f = m.find(v); if (f != m.end() && f->second.size() > 12) { left -= 1; continue; } }
      auto& l = m[v];
      // local offsets; away from the voxel faces where v*leaf is not exact
      const long lo = pow2(leaf) ? 0 : 8, hi = 1023 - lo;
      const bool same = r.chance(1, 12);
      IVec s{r.in(lo, hi), r.in(lo, hi), r.in(lo, hi)};
      for (int j = 0; j < c; j++) l.push_back(same ? s : IVec{r.in(lo, hi), r.in(lo, hi), r.in(lo, hi)});
      left -= c;
    }
    std::vector<Cell> cells;
    for (auto& x : m) cells.push_back({x.first, x.second});
    go(t, r, cells, leaf, backend, r.pick(std::vector<int>{1, 2, 3, 4, 8, 16, 33, 70}), backend == "serial" || r.chance(1, 3));
  }
  Ev(t, "end");
}
