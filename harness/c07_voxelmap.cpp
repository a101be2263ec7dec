// Incremental voxel maps (point and Gaussian), logged for VoxelMapTrace.tla (what=content) or VoxelSearchTrace.tla (what=search).
#include "cases.hpp"
#include <small_gicp/points/point_cloud.hpp>
#include <small_gicp/ann/incremental_voxelmap.hpp>
#include <small_gicp/ann/flat_container.hpp>
#include <small_gicp/ann/gaussian_voxelmap.hpp>
using namespace small_gicp;
using namespace vt;

struct Setting { long L, cap, min2, horizon, cycle; };
struct Pose { Eigen::Matrix3d R; IVec t; };
template <typename V> constexpr bool is_gauss = std::is_same<V, GaussianVoxel>::value;
template <typename V> struct Attr { static constexpr bool n = false, c = true; };
template <bool N, bool C> struct Attr<FlatContainer<N, C>> { static constexpr bool n = N, c = C; };

static const std::vector<Eigen::Matrix3d> ROT = cube_rotations();
constexpr long Q = 256;

template <typename V>
class Session {
public:
  using Map = IncrementalVoxelMap<V>;
  Session(Trace& t, Rng& r, Setting s, double scale, bool search) : t(t), r(r), s(s), scale(scale), search(search), map(s.L * scale) {
    apply();
    if (!search) Ev(t, "new").str("kind", is_gauss<V> ? "gauss" : "flat").i("L", s.L).i("cap", s.cap).i("min2", s.min2).i("horizon", s.horizon).i("cycle", s.cycle);
  }
  void set(Setting n) {
    n.L = s.L;
    s = n;
    apply();
    if (!search) Ev(t, "set").str("kind", is_gauss<V> ? "gauss" : "flat").i("L", s.L).i("cap", s.cap).i("min2", s.min2).i("horizon", s.horizon).i("cycle", s.cycle);
  }
  void insert(std::vector<IVec> pts, const Pose& pose, bool identity, long rep = 1) {
    PointCloud in;
    in.resize(pts.size() * rep);
    for (size_t i = 0; i < in.size(); i++) {
      auto& p = pts[i % pts.size()];
      if (!Attr<V>::n) p[3] = p[4] = p[5] = 0;
      if (!Attr<V>::c) for (int a = 6; a < 12; a++) p[a] = 0;
      in.point(i) = Eigen::Vector4d(p[0] * scale, p[1] * scale, p[2] * scale, 1.0);
      in.normal(i) = Eigen::Vector4d(p[3], p[4], p[5], 0.0);
      in.cov(i).setZero();
      in.cov(i).template topLeftCorner<3, 3>() << p[6], p[7], p[8], p[7], p[9], p[10], p[8], p[10], p[11];
    }
    const PointCloud before = in;
    if (identity) map.insert(in);
    else {
      Eigen::Isometry3d T = Eigen::Isometry3d::Identity();
      T.linear() = pose.R;
      T.translation() = Eigen::Vector3d(pose.t[0] * scale, pose.t[1] * scale, pose.t[2] * scale);
      map.insert(in, T);
    }
    ok = before.points == in.points && before.normals == in.normals && before.covs == in.covs;
    IVec R;
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) R.push_back(identity ? i == j : std::lround(pose.R(i, j)));
    if (!search) Ev(t, "ins").v("R", R).v("t", identity ? IVec{0, 0, 0} : pose.t).i("rep", rep).vv("pts", pts);
    refresh();
    if (!search) content(); else announce();
  }
  void idle(long n) {  // time passes
    const PointCloud none;
    for (long i = 0; i < n; i++) map.insert(none);
    ok = true;
    if (!search) Ev(t, "idle").i("n", n);
    refresh();
    if (!search) content(); else announce();
  }
  void offsets(int n) {
    map.set_search_offsets(n);
    offs = n == 7 || n == 27 ? n : 1;
    if (search && (pts.size() > 1000 || r.chance(1, 2))) Ev(t, "offs").i("offs", offs);
    else if (search) announce();
  }
  void query(const IVec& q, int k) {
    if (!search) return;
    const Eigen::Vector4d pt(q[0] * scale, q[1] * scale, q[2] * scale, 1.0);
    std::vector<size_t> id(k + 1, 987654321);
    std::vector<double> d(k + 1, -7.0);
    size_t n;
    const bool nn = k == 1 && r.chance(1, 2);
    const bool tr = r.chance(1, 2);
    const Map& m = map;
    if (nn) n = tr ? traits::nearest_neighbor_search(m, pt, id.data(), d.data()) : m.nearest_neighbor_search(pt, id.data(), d.data());
    else n = tr ? traits::knn_search(m, pt, k, id.data(), d.data()) : m.knn_search(pt, k, id.data(), d.data());
    const bool guard = id[k] == 987654321 && d[k] == -7.0;
    IVec idx, d2;
    std::vector<IVec> res;
    for (size_t i = 0; i < n && i < static_cast<size_t>(k); i++) {
      auto it = pos.find(id[i]);
      idx.push_back(it == pos.end() ? -1 : it->second);
      d2.push_back(lat(d[i], scale * scale));
      res.push_back(it == pos.end() ? IVec{} : resolve(id[i]));
    }
    if (!guard || n > static_cast<size_t>(k)) idx.push_back(-2);
    Ev(t, "search").v("q", q).i("k", k).v("idx", idx).v("d2", d2).vv("res", res).b("nn", nn);
  }
  const std::vector<IVec>& points() const { return pts; }
  Setting setting() const { return s; }

private:
  void apply() {
    if constexpr (!is_gauss<V>) {
      map.voxel_setting.max_num_points_in_cell = s.cap;
      map.voxel_setting.min_sq_dist_in_cell = 0.5 * s.min2 * scale * scale;
    }
    map.lru_horizon = s.horizon;
    map.lru_clear_cycle = s.cycle;
  }
  IVec encode(const Eigen::Vector4d& p, const Eigen::Vector4d& n, const Eigen::Matrix4d& c) {
    IVec v{lat(p[0], scale), lat(p[1], scale), lat(p[2], scale), lat(n[0]), lat(n[1]), lat(n[2]), lat(c(0, 0)), lat(c(0, 1)), lat(c(0, 2)), lat(c(1, 1)), lat(c(1, 2)), lat(c(2, 2))};
    if (p[3] != 1.0 || n[3] != 0.0 || c.row(3).norm() != 0.0 || c.col(3).norm() != 0.0 || c != c.transpose()) v[0] = NOT_EXACT;
    return v;
  }
  IVec resolve(size_t id) {
    const Map& m = map;
    Eigen::Vector4d n = Eigen::Vector4d::Zero();
    Eigen::Matrix4d c = Eigen::Matrix4d::Zero();
    if constexpr (Attr<V>::n) n = traits::normal(m, id);
    if constexpr (Attr<V>::c) c = traits::cov(m, id);
    return encode(traits::point(m, id), n, c);
  }
  void refresh() {
    const Map& m = map;
    const auto ids = traits::point_indices(m);
    const auto ps = traits::voxel_points(m);
    ok = ok && ps.size() == ids.size();
    pts.clear();
    pos.clear();
    means.clear();
    covs.clear();
    for (size_t i = 0; i < ids.size() && ok; i++) {
      ok = ok && pos.emplace(ids[i], static_cast<long>(i)).second && traits::point(m, ids[i]) == ps[i];
      if constexpr (is_gauss<V>) {
        means.push_back(ps[i]);
        covs.push_back(traits::cov(m, ids[i]));
      }
      pts.push_back(resolve(ids[i]));
    }
    if constexpr (Attr<V>::n) {
      const auto ns = traits::voxel_normals(m);
      ok = ok && ns.size() == ids.size();
      for (size_t i = 0; i < ids.size() && ok; i++) ok = ns[i] == traits::normal(m, ids[i]);
    }
    if constexpr (Attr<V>::c) {
      const auto cs = traits::voxel_covs(m);
      ok = ok && cs.size() == ids.size();
      for (size_t i = 0; i < ids.size() && ok; i++) ok = cs[i] == traits::cov(m, ids[i]);
    }
  }
  void announce() { Ev(t, "map").i("L", s.L).i("offs", offs).b("ok", ok).vv("pts", pts); }
  static std::string vec(const IVec& x) { std::string o = "["; for (size_t i = 0; i < x.size(); i++) { if (i) o += ","; o += std::to_string(x[i]); } return o + "]"; }
  static long fdiv(long a, long b) { return a >= 0 ? a / b : -((-a + b - 1) / b); }
  void content() {
    std::string cells = "[";
    if constexpr (is_gauss<V>) {
      for (size_t i = 0; i < means.size(); i++) {
        IVec v, m, c;
        for (int a = 0; a < 3; a++) { v.push_back(static_cast<long>(std::floor(means[i][a] / (s.L * scale)))); m.push_back(quant(means[i][a] / scale, Q)); }
        ok = ok && std::abs(means[i][3] - 1.0) < 1e-9 && covs[i].row(3).norm() < 1e-9 && (covs[i] - covs[i].transpose()).norm() < 1e-9;
        for (int a = 0; a < 3; a++) for (int b = a; b < 3; b++) c.push_back(quant(covs[i](a, b), Q));
        cells += std::string(i ? "," : "") + "{\"v\":" + vec(v) + ",\"m\":" + vec(m) + ",\"c\":" + vec(c) + "}";
      }
    } else {
      std::map<IVec, std::vector<IVec>> g;
      for (auto& p : pts) g[{fdiv(p[0], s.L), fdiv(p[1], s.L), fdiv(p[2], s.L)}].push_back(p);
      bool first = true;
      for (auto& [v, ps] : g) {
        cells += std::string(first ? "" : ",") + "{\"v\":" + vec(v) + ",\"pts\":[";
        for (size_t i = 0; i < ps.size(); i++) cells += (i ? "," : "") + vec(ps[i]);
        cells += "]}";
        first = false;
      }
    }
    const Map& m = map;
    Ev(t, "content").i("size", m.size()).b("ok", ok && traits::size(m) == m.size()).raw("cells", cells + "]");
  }
  Trace& t;
  Rng& r;
  Setting s;
  double scale;
  bool search;
  Map map;
  bool ok = true;
  int offs = 1;
  std::vector<IVec> pts;
  std::vector<Eigen::Vector4d> means;
  std::vector<Eigen::Matrix4d> covs;
  std::map<size_t, long> pos;
};

static IVec attrs(Rng& r, long x, long y, long z) {
  return {x, y, z, r.in(-3, 3), r.in(-3, 3), r.in(-3, 3), r.in(0, 9), r.in(-4, 4), r.in(-4, 4), r.in(0, 9), r.in(-4, 4), r.in(0, 9)};
}

template <typename V>
static void random_session(Trace& t, Rng& r, bool search, int len) {
  // Cell edges that are powers of two may hold points on their borders; others hold odd coordinates only (edges and shifts are even).
  const bool gauss = is_gauss<V>;
  const bool odd = gauss || r.chance(1, 3);
  const long L = odd ? r.pick(IVec{2, 4, 6, 10, 14}) : r.pick(IVec{1, 2, 4, 8, 16});
  const long Lx = gauss && L < 4 ? 4 : L;
  const double scale = std::ldexp(1.0, r.in(-6, 4));
  auto setting = [&](void) {
    return Setting{Lx, r.pick(IVec{0, 1, 2, 3, 10, 10, 300}), r.pick(IVec{0, 0, 1, 2, 4, 6, 8, 18}), r.pick(IVec{0, 1, 2, 3, 5, 100}), r.pick(IVec{1, 2, 3, 4, 10})};
  };
  Session<V> S(t, r, setting(), scale, search);
  const bool heavy = gauss && r.chance(1, 8);  // cells with thousands of points
  const long ext = heavy ? 2 : r.pick(IVec{1, 2, 3}) * Lx;
  IVec far{0, 0, 0};
  if (!heavy && r.chance(1, 4)) for (auto& f : far) f = 2 * Lx * r.in(-400, 400);
  if (!gauss && r.chance(1, 6)) for (auto& f : far) f = 2 * Lx * r.in(-2000000, 2000000);
  if (heavy) len = std::min(len, 12);
  for (int step = 0; step < len; step++) {
    if (r.chance(1, 5)) S.set(setting());
    if (r.chance(1, 4)) S.offsets(r.pick(IVec{1, 7, 27, 27, 7, 5}));
    Pose pose{r.pick(ROT), {far[0] + 2 * r.in(-Lx, Lx), far[1] + 2 * r.in(-Lx, Lx), far[2] + 2 * r.in(-Lx, Lx)}};
    const bool identity = r.chance(1, 4);
    const int n = r.chance(1, 8) ? 0 : r.in(1, r.chance(1, 4) ? 24 : 6);
    std::vector<IVec> pts;
    for (int i = 0; i < n; i++) {
      IVec p{r.in(-ext, ext), r.in(-ext, ext), r.in(-ext, ext)};
      if (r.chance(1, 3)) for (auto& c : p) c = r.in(-1, 1);
      if (gauss && search) for (auto& c : p) c = Lx * r.in(-2, 2) + 1;
      else if (odd) for (auto& c : p) c = 2 * (c / 2) + 1;
      if (!pts.empty() && r.chance(1, 6)) p = pts[r.in(0, pts.size() - 1)];
      pts.push_back(attrs(r, p[0], p[1], p[2]));
    }
    if (gauss && search) {
      // identical contents in a cell: multiples of the cell edge, so a pose maps cells onto cells
      pose.R.setIdentity();
      for (int a = 0; a < 3; a++) pose.t[a] = Lx * (pose.t[a] / Lx);
      for (auto& p : pts) for (int a = 6; a < 12; a++) p[a] = a % 3 + 1;  // (and one covariance)
    }
    S.insert(pts, pose, identity, heavy && !far[0] && r.chance(1, 3) ? r.pick(IVec{40, 130, 300}) : 1);
    if (search) {
      const int nq = r.in(0, 6);
      for (int i = 0; i < nq; i++) {
        IVec q{r.in(-ext, ext), r.in(-ext, ext), r.in(-ext, ext)};
        if (!S.points().empty() && r.chance(3, 4)) {
          const auto& p = S.points()[r.in(0, S.points().size() - 1)];
          for (int a = 0; a < 3; a++) q[a] = p[a] + r.in(-Lx, Lx);
        }
        if (odd) for (auto& c : q) c = 2 * (c >= 0 ? c / 2 : (c - 1) / 2) + 1;
        S.query(q, r.pick(IVec{1, 1, 2, 3, 5, 20, 60}));
        if (r.chance(1, 12)) S.offsets(r.pick(IVec{1, 7, 27}));
      }
    }
  }
}

// Long histories (the insertion count passes 2^8 and 2^16, the horizon is of that order) and cells of several hundred points.
template <typename V>
static void long_session(Trace& t, Rng& r, bool search) {
  const long L = 4;
  auto setting = [&] { return Setting{L, 10, 0, r.pick(IVec{2, 100, 250, 300, 1000, 70000}), r.pick(IVec{1, 7, 10, 256, 300})}; };
  Session<V> S(t, r, setting(), 0.25, search);
  const long at = r.pick(IVec{0, 250, 65530});
  for (int step = 0; step < 10; step++) {
    if (r.chance(1, 4)) S.set(setting());
    std::vector<IVec> pts;
    const int n = r.in(1, 4);
    for (int i = 0; i < n; i++) { const long x = 4 * r.in(-2, 2) + 1; pts.push_back(attrs(r, x, 1, 1)); if (is_gauss<V> && search) for (int a = 6; a < 12; a++) pts.back()[a] = a % 3 + 1; }
    S.insert(pts, Pose{ROT[0], {0, 0, 0}}, true);
    if (search) S.query({4 * r.in(-2, 2) + 1, 1, 1}, r.pick(IVec{1, 5}));
    S.idle(step == 1 ? at : r.pick(IVec{1, 3, 8, 90, 249, 256, 257, 300}));
    if (search) S.query({4 * r.in(-2, 2) + 1, 1, 1}, r.pick(IVec{1, 5}));
  }
}
template <typename V>
static void crowded(Trace& t, Rng& r) {
  Session<V> S(t, r, Setting{16, 300, r.pick(IVec{0, 2, 4}), 100, 10}, 0.5, false);
  for (int k = 0; k < 3; k++) {
    std::vector<IVec> pts;
    for (int i = 0; i < 240; i++) pts.push_back(attrs(r, r.in(0, 15), r.in(0, 15), r.in(0, 15)));
    S.insert(pts, Pose{ROT[0], {0, 0, 0}}, k != 1);
  }
}

// Identifiers of maps with very many cells or very many points in a cell.
static void big_session(Trace& t, Rng& r, bool cells, int n) {
  const long L = n > 20000 && !cells ? 64 : 8;
  Session<FlatContainerPoints> S(t, r, Setting{L, 1000000, 0, 100, 10}, 0.5, true);
  std::vector<IVec> pts;
  const int e = cells ? 48 : 1;
  for (int i = 0; i < n; i++) {
    if (cells) pts.push_back({(i % e) * 8 + r.in(0, 7), (i / e % e) * 8 + r.in(0, 7), (i / e / e) * 8 + r.in(0, 7)});
    else pts.push_back({r.in(0, L - 1) - (r.chance(1, 9) ? L : 0), r.in(0, L - 1), r.in(0, L - 1)});
    pts.back().resize(12, 0);
  }
  for (size_t i = pts.size(); i > 1; i--) std::swap(pts[i - 1], pts[r.in(0, i - 1)]);
  S.insert(pts, Pose{ROT[0], {0, 0, 0}}, true);
  for (int i = 0; i < (cells ? 12 : 6); i++) {
    if (i == 6) {  // most cells are touched again, the others are dropped: every index changes
      std::vector<IVec> most(pts.begin() + 500, pts.end());
      S.set(Setting{L, 1000000, 0, 2, 4});
      S.insert({{1, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0}}, Pose{ROT[0], {0, 0, 0}}, true);
      S.insert(most, Pose{ROT[0], {0, 0, 0}}, true);
      S.idle(1);
    }
    S.offsets(r.pick(IVec{1, 7, 27}));
    IVec q = i % 2 ? pts[pts.size() - 1 - r.in(0, 900)] : pts[r.in(0, pts.size() - 1)];
    q.resize(3);
    S.query(q, r.pick(IVec{1, 4, 50}));
  }
}

// A Gaussian voxel that receives more points than 16 bits can count.
static void big_gauss(Trace& t, Rng& r) {
  Session<GaussianVoxel> S(t, r, Setting{8, 1, 0, 100, 10}, 0.5, false);
  S.insert({attrs(r, 1, 3, 5), attrs(r, -1, 3, 5)}, Pose{ROT[0], {0, 0, 0}}, true, 33000);
  S.insert({attrs(r, 3, 3, 5)}, Pose{ROT[0], {0, 0, 0}}, true, 40000);
  S.insert({attrs(r, 5, 1, 5), attrs(r, -3, 3, 5)}, Pose{ROT[0], {0, 0, 0}}, true, 30000);
}

// A history enumerated by TLC: h c cap op...
template <typename V>
static void generated(Trace& t, Rng& r, const IVec& c) {
  const long L = 4;
  Session<V> S(t, r, Setting{L, c[2], 10, c[0], c[1]}, 0.25, false);
  for (size_t i = 3; i < c.size(); i++) {
    const Pose pose{ROT[(i * 7 + c[0]) % ROT.size()], {0, 0, 0}};
    auto at = [&](long x, long y, long z) { return attrs(r, x, y, z); };
    Setting s = S.setting();
    switch (c[i]) {
      case 1: S.insert({at(1, 1, 1)}, pose, true); break;                                     // cell A
      case 2: S.insert({at(-1, 1, 1), at(1, 3, 1), at(-3, 1, 3)}, pose, true); break;         // cells B and A, a second point of B
      case 3: S.insert({}, pose, true); break;                                               // nothing: time passes
      case 4: S.insert({at(1, 3, 1), at(1, 1, 1), at(3, 3, 1)}, pose, false); break;          // a rotated scan
      case 5: s.horizon = s.horizon ? s.horizon - 1 : 2; S.set(s); break;
      case 6: s.cycle = s.cycle % 3 + 1; s.min2 = 10 - s.min2; S.set(s); break;
    }
  }
}

int main(int argc, char** argv) {
  Args a(argc, argv);
  Trace t(a.s("out"));
  Rng r(a.i("seed", 1));
  std::cerr.setstate(std::ios::failbit);
  const bool gauss = a.s("kind", "flat") == "gauss";
  if (a.s("mode") == "gen") {
    auto cs = read_cases(a.s("cases"));
    for (size_t i = a.i("shard"); i < cs.size(); i += a.i("nshards", 1)) gauss ? generated<GaussianVoxel>(t, r, cs[i]) : generated<FlatContainerNormalCov>(t, r, cs[i]);
  } else {
    const bool search = a.s("what") == "search";
    if (a.i("big") && gauss) big_gauss(t, r);
    else if (a.i("big")) big_session(t, r, a.i("big") > 20000 && !a.i("cell"), a.i("big"));
    for (int i = 0; i < a.i("long", 0); i++) {
      if (gauss) long_session<GaussianVoxel>(t, r, search);
      else { long_session<FlatContainerNormalCov>(t, r, search); if (!search) crowded<FlatContainerNormal>(t, r); }
    }
    for (int i = 0; i < a.i("iters", 20); i++) {
      const int len = r.in(2, a.i("len", 20));
      if (gauss) random_session<GaussianVoxel>(t, r, search, len);
      else switch (r.in(0, 4)) {
        case 0: random_session<FlatContainerPoints>(t, r, search, len); break;
        case 1: random_session<FlatContainerNormal>(t, r, search, len); break;
        case 2: random_session<FlatContainerCov>(t, r, search, len); break;
        case 3: random_session<FlatContainerNormalCov>(t, r, search, len); break;
        default: search ? random_session<GaussianVoxel>(t, r, search, len) : random_session<FlatContainerNormalCov>(t, r, search, len);
      }
    }
  }
  Ev(t, "end");
  return 0;
}
