// Point factors: pairing histories (mode=pair, gen) for PairTrace.tla and linearized systems (mode=sys, rob) for SystemTrace.tla.
#include "cases.hpp"
#include <small_gicp/points/point_cloud.hpp>
#include <small_gicp/ann/kdtree.hpp>
#include <small_gicp/ann/incremental_voxelmap.hpp>
#include <small_gicp/ann/gaussian_voxelmap.hpp>
#include <small_gicp/ann/flat_container.hpp>
#include <small_gicp/factors/icp_factor.hpp>
#include <small_gicp/factors/plane_icp_factor.hpp>
#include <small_gicp/factors/gicp_factor.hpp>
#include <small_gicp/factors/robust_kernel.hpp>
#include <small_gicp/registration/rejector.hpp>
using namespace small_gicp;
using namespace vt;
using Mat6 = Eigen::Matrix<double, 6, 6>;
using Vec6 = Eigen::Matrix<double, 6, 1>;

// A search structure that answers what it is told; not finding anything leaves garbage behind.
struct Script { bool found = true; size_t idx = 0; double d2 = 0; bool nn = false; mutable long asks = 0; mutable Eigen::Vector4d q; };
struct Script2 : Script {};
namespace small_gicp { namespace traits {
template <> struct Traits<Script> {  // offers only knn_search
  static size_t knn_search(const Script& t, const Eigen::Vector4d& p, size_t k, size_t* i, double* d) { t.asks++; t.q = p; *i = t.idx; *d = t.d2; return t.found ? 1 : 0; }
};
template <> struct Traits<Script2> {  // offers both
  static size_t knn_search(const Script2& t, const Eigen::Vector4d& p, size_t k, size_t* i, double* d) { t.asks++; t.q = p; *i = t.idx; *d = t.d2; return t.found ? 1 : 0; }
  static size_t nearest_neighbor_search(const Script2& t, const Eigen::Vector4d& p, size_t* i, double* d) { t.asks++; t.q = p; *i = t.idx; *d = t.d2; return t.found ? 1 : 0; }
};
}}

struct Pose {  // (M / d) x + t
  Eigen::Matrix3d M = Eigen::Matrix3d::Identity();
  long d = 1;
  IVec t{0, 0, 0};
  Eigen::Isometry3d T() const {
    Eigen::Isometry3d T = Eigen::Isometry3d::Identity();
    T.linear() = M / (double)d;
    T.translation() = Eigen::Vector3d(t[0], t[1], t[2]);
    return T;
  }
  IVec m() const { IVec v; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) v.push_back(std::lround(M(i, j))); return v; }
};
static std::vector<Eigen::Matrix3d> CUBE = cube_rotations();
static const Eigen::Matrix3d& eye() { return *std::find_if(CUBE.begin(), CUBE.end(), [](auto& m) { return m.isIdentity(); }); }
// rotation of the integer quaternion (a, b, c, d)
static Pose quat_pose(long a, long b, long c, long e) {
  Pose p;
  p.d = a * a + b * b + c * c + e * e;
  p.M << a * a + b * b - c * c - e * e, 2 * (b * c - a * e), 2 * (b * e + a * c), 2 * (b * c + a * e), a * a - b * b + c * c - e * e, 2 * (c * e - a * b), 2 * (b * e - a * c), 2 * (c * e + a * b), a * a - b * b - c * c + e * e;
  return p;
}

// an integer up to rounding
static long near(double v) { return std::isfinite(v) && std::abs(v - std::round(v)) < 1e-6 * (1 + std::abs(v)) ? lat(std::round(v)) : std::isfinite(v) ? NOT_EXACT : NOT_FINITE; }

// ------------------------------------------------------------------------------------------------ pairing
struct World {  // coordinates relative to the offset
  std::vector<IVec> tgt, src;
  IVec ax, cov, scov;   // normal axis (1..3, negative: reversed), target covariance scale, source covariance scale
  IVec off{0, 0, 0};
};
struct CheckRejector {  // rejects large distances and banned target indices; checks what it is given
  const World* w;
  long maxd4;
  const IVec* banned;
  bool check_index;
  const PointCloud* source;
  Eigen::Isometry3d T;
  size_t i;
  mutable bool ok = true;
  template <typename Target>
  bool operator()(const Target& t, const PointCloud& s, const Eigen::Isometry3d& P, size_t ti, size_t si, double d2) const {
    ok = ok && &s == source && P.matrix() == T.matrix() && si == i;
    const Eigen::Vector4d q = traits::point(t, ti);
    ok = ok && (!check_index || (q - P * s.points[si]).squaredNorm() == d2);
    if (maxd4 >= 0 && d2 * 4 > maxd4) return true;
    return banned && std::find(banned->begin(), banned->end(), (long)ti) != banned->end();
  }
};
template <typename F> struct FName;
template <> struct FName<ICPFactor> { static const char* s() { return "icp"; } };
template <> struct FName<PointToPlaneICPFactor> { static const char* s() { return "plane"; } };
template <> struct FName<GICPFactor> { static const char* s() { return "gicp"; } };
template <typename K, typename F> struct FName<RobustFactor<K, F>> { static const char* s() { return FName<F>::s(); } };
template <typename F> typename F::Setting setting() { return {}; }
template <> RobustFactor<Huber, ICPFactor>::Setting setting<RobustFactor<Huber, ICPFactor>>() { RobustFactor<Huber, ICPFactor>::Setting s; s.robust_kernel.c = 1e9; return s; }
template <> RobustFactor<Huber, GICPFactor>::Setting setting<RobustFactor<Huber, GICPFactor>>() { RobustFactor<Huber, GICPFactor>::Setting s; s.robust_kernel.c = 1e9; return s; }

struct Step { bool lin; int f; long i; Pose pose; long maxd4; int rej; long found, idx, d2; };  // rej: 0 none, 1 distance, 2 custom

template <typename F, typename Target, typename Tree, typename SetScript>
static void pair_session(Trace& t, Rng& r, const World& w, const Target& target, const PointCloud& source, Tree& tree, const char* tname, bool idx_ok, const std::vector<Step>& steps,
                         const IVec& banned, SetScript&& script) {
  {
    std::vector<IVec> tg = w.tgt, sr = w.src;
    Ev(t, "world").str("fac", FName<F>::s()).str("tree", tname).vv("tgt", tg).vv("src", sr).v("ax", w.ax).v("cov", w.cov).v("scov", w.scov).v("ban", banned);
  }
  std::vector<F> fs(3, F(setting<F>()));
  const Eigen::Isometry3d O(Eigen::Translation3d(w.off[0], w.off[1], w.off[2]));
  for (auto& s : steps) {
    const Eigen::Isometry3d T = O * s.pose.T() * O.inverse();
    F& f = fs[s.f];
    if (s.lin) {
      Mat6 H; Vec6 b; double e = -1;
      const bool asked = script(tree, s);
      bool ret, ok = true;
      if (s.rej == 0) { NullRejector rej; ret = f.linearize(target, source, tree, T, s.i, rej, &H, &b, &e); }
      else if (s.rej == 1) { DistanceRejector rej; rej.max_dist_sq = s.maxd4 / 4.0; ret = f.linearize(target, source, tree, T, s.i, rej, &H, &b, &e); }
      else {
        CheckRejector rej{&w, s.maxd4, idx_ok ? &banned : nullptr, !asked, &source, T, (size_t)s.i};
        ret = f.linearize(target, source, tree, T, s.i, rej, &H, &b, &e);
        ok = rej.ok;
      }
      Ev(t, "lin").i("f", s.f).i("i", s.i).v("R", s.pose.m()).v("t", s.pose.t).i("maxd4", s.rej == 0 ? -1 : s.maxd4).b("ban", s.rej == 2 && idx_ok).v("ans", asked ? IVec{s.found, s.idx, s.d2} : IVec{})
        .b("ret", ret).b("inl", f.inlier()).i("e", ret ? near(32 * e) : 0).b("ok", ok);
    } else {
      const double e = f.error(target, source, T);
      Ev(t, "err").i("f", s.f).v("R", s.pose.m()).v("t", s.pose.t).b("inl", f.inlier()).i("e", near(32 * e));
    }
  }
}

static Eigen::Vector4d pt(const IVec& p, const IVec& off) { return Eigen::Vector4d(p[0] + off[0], p[1] + off[1], p[2] + off[2], 1.0); }
static void fill(PointCloud& c, const std::vector<IVec>& pts, const IVec& ax, const IVec& cov, const IVec& off) {
  c.resize(pts.size());
  for (size_t i = 0; i < pts.size(); i++) {
    c.point(i) = pt(pts[i], off);
    c.normal(i) = Eigen::Vector4d::Zero();
    c.normal(i)[std::abs(ax[i]) - 1] = ax[i] > 0 ? 1 : -1;
    c.cov(i) = Eigen::Matrix4d::Zero();
    c.cov(i).block<3, 3>(0, 0) = Eigen::Matrix3d::Identity() * (double)cov[i];
  }
}

template <typename F>
static void run_pair(Trace& t, Rng& r, const World& w, int tree_kind, const std::vector<Step>& steps, const IVec& banned) {
  PointCloud target, source;
  fill(target, w.tgt, w.ax, w.cov, w.off);
  fill(source, w.src, IVec(w.src.size(), 1), w.scov, w.off);
  auto none = [](auto&, const Step&) { return false; };
  auto scripted = [](auto& tree, const Step& s) { tree.found = s.found; tree.idx = s.idx; tree.d2 = s.d2; return true; };
  constexpr bool plane = std::is_same_v<F, PointToPlaneICPFactor>;
  if (tree_kind == 0) { KdTree<PointCloud> tree(std::make_shared<PointCloud>(target)); pair_session<F>(t, r, w, target, source, tree, "all", true, steps, banned, none); }
  else if (tree_kind == 1) { KdTreeBuilder b; b.max_leaf_size = 1; UnsafeKdTree<PointCloud> tree(target, b); pair_session<F>(t, r, w, target, source, tree, "all", true, steps, banned, none); }
  else if (tree_kind == 2) { Script tree; pair_session<F>(t, r, w, target, source, tree, "script", true, steps, banned, scripted); }
  else if (tree_kind == 3) { Script2 tree; pair_session<F>(t, r, w, target, source, tree, "script", true, steps, banned, scripted); }
  else if (tree_kind == 4) {  // one cell of edge 64 holds everything; queries outside of it find nothing
    IncrementalVoxelMap<FlatContainerNormalCov> map(64.0);
    map.set_search_offsets(1);
    map.voxel_setting.max_num_points_in_cell = 1000;
    map.voxel_setting.min_sq_dist_in_cell = 0.0;
    map.insert(target);
    World v = w;
    pair_session<F>(t, r, v, map, source, map, "cell64", false, steps, banned, none);
  } else if constexpr (!plane) {  // every point in its own unit cell
    GaussianVoxelMap map(1.0);
    map.set_search_offsets(tree_kind == 5 ? 27 : tree_kind == 6 ? 7 : 1);
    map.insert(target);
    pair_session<F>(t, r, w, map, source, map, tree_kind == 5 ? "unit27" : tree_kind == 6 ? "unit7" : "unit1", false, steps, banned, none);
  }
}
template <typename Fn>
static void with_factor(int k, Fn&& fn) {
  if (k == 0) fn((ICPFactor*)nullptr);
  if (k == 1) fn((PointToPlaneICPFactor*)nullptr);
  if (k == 2) fn((GICPFactor*)nullptr);
  if (k == 3) fn((RobustFactor<Huber, ICPFactor>*)nullptr);
  if (k == 4) fn((RobustFactor<Huber, GICPFactor>*)nullptr);
}
static World make_world(Rng& r, int n, int m, long ext, bool far, bool distinct) {
  World w;
  std::set<IVec> seen;
  for (int i = 0; i < n; i++) {
    IVec p{r.in(0, ext), r.in(0, ext), r.in(0, ext)};
    if (distinct && !seen.insert(p).second) continue;
    w.tgt.push_back(p);
    w.ax.push_back(r.pick(std::vector<long>{1, 2, 3, -1, -2, -3}));
    w.cov.push_back(r.pick(std::vector<long>{0, 1, 3}));
  }
  for (int i = 0; i < m; i++) {
    w.src.push_back({r.in(0, ext), r.in(0, ext), r.in(0, ext)});
    w.scov.push_back(1);
  }
  if (far) w.off = {r.in(-1000000, 1000000) * 64, r.in(-1000000, 1000000) * 64, r.in(-1000000, 1000000) * 64};
  return w;
}
static void pair_random(Trace& t, Rng& r, int iters) {
  for (int it = 0; it < iters; it++) {
    const int fk = r.in(0, 4);
    int tk = r.in(0, fk == 1 ? 4 : 7);
    const bool unit = tk >= 5;
    const bool far = r.chance(1, 4);
    // normals of the voxel maps stay with the point; a Gaussian map holds one point per cell
    World w = make_world(r, r.pick(std::vector<int>{tk == 2 || tk == 3 ? 3 : 0, 1, 2, 5, 20, 60}), r.in(1, 4), r.pick(std::vector<long>{1, 3, 8, 40}), far, unit);
    const IVec banned = r.chance(1, 2) ? IVec{} : IVec{r.in(0, 5), r.in(0, 20)};
    std::vector<Step> steps;
    Pose last;
    for (int k = r.in(3, 25); k; k--) {
      Step s;
      s.f = r.in(0, 2);
      s.i = r.chance(3, 4) ? s.f % w.src.size() : r.in(0, w.src.size() - 1);
      if (r.chance(2, 3)) {
        last = Pose();
        last.M = far || r.chance(1, 2) ? eye() : r.pick(CUBE);
        const long e = r.pick(std::vector<long>{0, 1, 2, 10, 50});
        last.t = {r.in(-e, e), r.in(-e, e), r.in(-e, e)};
      }
      s.pose = last;
      s.lin = k > 24 || r.chance(1, 2);
      s.rej = r.in(0, 2);
      s.maxd4 = r.pick(std::vector<long>{0, 1, 4, 8, 12, 100, 1000, 100000});
      // sit exactly on, just inside or just outside the distance of some target
      if (!w.tgt.empty() && r.chance(1, 2)) {
        const Eigen::Vector3d x = s.pose.M * Eigen::Vector3d(w.src[s.i][0], w.src[s.i][1], w.src[s.i][2]);
        const IVec& q = w.tgt[r.in(0, w.tgt.size() - 1)];
        long d = 0;
        for (int c = 0; c < 3; c++) d += std::lround(std::pow(q[c] - x[c] - s.pose.t[c], 2));
        s.maxd4 = std::max(0l, 4 * d + r.in(-1, 1));
      }
      s.found = w.tgt.empty() ? 0 : r.chance(3, 4); s.idx = w.tgt.empty() ? 0 : r.in(0, w.tgt.size() - 1); s.d2 = r.in(0, 30);
      steps.push_back(s);
    }
    with_factor(fk, [&](auto* f) { run_pair<std::remove_pointer_t<decltype(f)>>(t, r, w, tk, steps, banned); });
  }
}
// TLC-enumerated histories: <tree> <factor> <world> then operations 1..NumOps
static void pair_gen(Trace& t, Rng& r, const Args& a) {
  const auto cases = read_cases(a.s("cases"));
  const long sh = a.i("shard"), ns = a.i("nshards", 1);
  for (size_t c = sh; c < cases.size(); c += ns) {
    const IVec& x = cases[c];
    World w;
    static const std::vector<std::vector<IVec>> T{{}, {{0, 0, 0}}, {{0, 0, 0}, {2, 0, 0}}, {{1, 0, 0}, {2, 0, 0}, {3, 1, 0}}};
    w.tgt = T[x[2]];
    w.ax = IVec{1, -2, 1}; w.ax.resize(w.tgt.size());
    w.cov = IVec{0, 1, 3}; w.cov.resize(w.tgt.size());
    w.src = {{1, 0, 0}};
    w.scov = {1};
    std::vector<Step> steps;
    for (size_t k = 3; k < x.size(); k++) {
      Step s;
      const long o = x[k] - 1;   // shift 0..2 x {error, reject above 0, 1, 4}
      s.f = 0; s.i = 0;
      s.lin = o % 4 != 0;
      s.rej = 1; s.maxd4 = std::vector<long>{0, 0, 4, 16}[o % 4];
      s.pose.t = {o / 4 - 1, 0, 0};
      s.found = !w.tgt.empty(); s.idx = 0; s.d2 = 0;
      steps.push_back(s);
    }
    with_factor(x[1], [&](auto* f) { run_pair<std::remove_pointer_t<decltype(f)>>(t, r, w, x[0], steps, {}); });
  }
}

// ------------------------------------------------------------------------------------------------ systems
constexpr double Q = 4096.0;
static Eigen::Isometry3d trans(int i, double s, int j = -1, double u = 0) {
  Eigen::Isometry3d P = Eigen::Isometry3d::Identity();
  P.translation()[i] += s;
  if (j >= 0) P.translation()[j] += u;
  return P;
}
static Eigen::Isometry3d rot(int i, double s, double c) {
  Eigen::Isometry3d P = Eigen::Isometry3d::Identity();
  const int a = (i + 1) % 3, b = (i + 2) % 3;
  P.linear()(a, a) = c; P.linear()(b, b) = c; P.linear()(b, a) = s; P.linear()(a, b) = -s;
  return P;
}
static IVec spd(Rng& r, int kind) {  // xx xy xz yy yz zz
  if (kind == 0) return {0, 0, 0, 0, 0, 0};
  if (kind == 1) return {r.in(1, 4), 0, 0, r.in(1, 4), 0, r.in(1, 4)};
  const long a = r.in(3, 5), b = r.in(3, 5), c = r.in(3, 5);   // diagonally dominant
  const long x = r.in(-1, 1), y = r.in(-1, 1), z = r.in(-1, 1);
  return {a, x, y, b, z, c};
}
static Eigen::Matrix4d cov4(const IVec& c) {
  Eigen::Matrix4d m = Eigen::Matrix4d::Zero();
  m.block<3, 3>(0, 0) << c[0], c[1], c[2], c[1], c[3], c[4], c[2], c[4], c[5];
  return m;
}
template <typename F>
static void sys_events(Trace& t, Rng& r, F& f, bool far) {
  PointCloud target, source;
  target.resize(3); source.resize(2);
  const long ext = 5;
  IVec off{0, 0, 0};
  if (far) for (auto& o : off) o = r.in(-1000, 1000) * 1024;
  IVec p{r.in(-ext, ext), r.in(-ext, ext), r.in(-ext, ext)}, q{r.in(-ext, ext), r.in(-ext, ext), r.in(-ext, ext)};
  IVec n{0, 0, 0};
  const bool axis = r.chance(1, 2);
  if (axis) n[r.in(0, 2)] = r.chance(1, 2) ? 1 : -1; else for (auto& c : n) c = r.in(-2, 2);
  const int ck = r.in(0, 2);
  const IVec ct = spd(r, r.chance(1, 6) ? 0 : ck), cs = spd(r, ct[0] == 0 ? 1 + ck % 2 : ck);
  Pose P;
  if (far || r.chance(1, 5)) P.M = far ? eye() : r.pick(CUBE);
  else if (r.chance(1, 2)) P = quat_pose(r.in(0, 2), r.in(-2, 2), r.in(-2, 2), 1);
  else P = quat_pose(r.in(1, 2), r.in(-1, 1), r.in(-1, 1), r.in(-1, 1));
  for (auto& c : P.t) c = r.in(-4, 4);
  const Eigen::Isometry3d T = P.T();
  Script tree;
  tree.idx = r.in(0, 2);
  const size_t si = r.in(0, 1);
  for (int i = 0; i < 3; i++) { target.point(i) = Eigen::Vector4d(77, -55, 99, 1); target.normal(i) = Eigen::Vector4d(0.6, 0.8, 0, 0); target.cov(i).setZero(); target.cov(i).diagonal() << 5, 6, 7, 0; }
  for (int i = 0; i < 2; i++) { source.point(i) = Eigen::Vector4d(-7, 5, 9, 1); source.cov(i).setZero(); source.cov(i).diagonal() << 3, 2, 1, 0; }
  target.point(tree.idx) = Eigen::Vector4d(q[0] + off[0], q[1] + off[1], q[2] + off[2], 1);
  target.normal(tree.idx) = Eigen::Vector4d(n[0], n[1], n[2], 0);
  target.cov(tree.idx) = cov4(ct);
  source.point(si) = Eigen::Vector4d(p[0] + off[0], p[1] + off[1], p[2] + off[2], 1);
  source.cov(si) = cov4(cs);
  Mat6 H; Vec6 b; double e;
  H.setConstant(12345); b.setConstant(777); e = 55;
  const bool ret = f.linearize(target, source, tree, T, si, NullRejector(), &H, &b, &e);
  const Eigen::Vector4d seen = T * source.point(si);
  auto E = [&](const Eigen::Isometry3d& D) { return quant(f.error(target, source, T * D), Q); };
  IVec h, bb, tp, tm, tt, qp, qm, rp, rm;
  for (int i = 0; i < 6; i++) for (int j = 0; j < 6; j++) h.push_back(far && (i < 3 || j < 3) ? 0 : quant(H(i, j), Q));
  for (int i = 0; i < 6; i++) bb.push_back(far && i < 3 ? 0 : quant(b[i], Q));
  for (int i = 0; i < 3; i++) {
    tp.push_back(E(trans(i, 1))); tm.push_back(E(trans(i, -1)));
    qp.push_back(far ? 0 : E(rot(i, 1, 0))); qm.push_back(far ? 0 : E(rot(i, -1, 0)));
    rp.push_back(far ? 0 : E(rot(i, 0.8, 0.6))); rm.push_back(far ? 0 : E(rot(i, -0.8, 0.6)));
  }
  tt = {E(trans(0, 1, 1, 1)), E(trans(0, 1, 2, 1)), E(trans(1, 1, 2, 1))};
  Ev(t, "sys").str("fac", FName<F>::s()).b("far", far).v("p", p).v("q", q).v("n", n).b("axis", axis).v("ct", ct).v("cs", cs).v("M", P.m()).i("d", P.d).v("t", P.t)
    .b("ret", ret).b("asked", tree.asks >= 1 && (tree.q - seen).norm() < 1e-9 * (1 + seen.norm())).v("H", h).v("b", bb).i("e", quant(e, Q))
    .i("zero", E(Eigen::Isometry3d::Identity())).v("tp", tp).v("tm", tm).v("tt", tt).v("qp", qp).v("qm", qm).v("rp", rp).v("rm", rm);
}

// One robust kernel, many residuals, compared with the plain factor.
template <typename K, typename F>
static void rob_session(Trace& t, Rng& r, const char* kname, int n) {
  typename RobustFactor<K, F>::Setting s;
  if (!r.chance(1, 6)) s.robust_kernel.c = r.pick(std::vector<double>{0.01, 0.1, 0.5, 1.0, 2.0, 3.0, 10.0, 100.0});
  const double c = s.robust_kernel.c;
  const double S = 1048576.0, ES = 2000.0 / (c * c);   // errors in units of c^2 / 2000
  Ev(t, "kernel").str("kernel", kname).str("fac", FName<F>::s()).i("c2", 2000);
  RobustFactor<K, F> rf(s);
  F pf;
  for (int k = 0; k < n; k++) {
    PointCloud target, source;
    target.resize(1); source.resize(1);
    const double mag = c * std::pow(2.0, r.in(-40, 40) / 8.0);
    auto u = [&] { return r.in(-1000, 1000) / 1000.0; };
    Pose P = quat_pose(r.in(1, 3), r.in(-2, 2), r.in(-2, 2), r.in(-2, 2));
    const Eigen::Isometry3d T = P.T();
    source.point(0) = Eigen::Vector4d(u() * 5, u() * 5, u() * 5, 1);
    target.point(0) = T * source.point(0);
    if (!r.chance(1, 20)) target.point(0).head<3>() += Eigen::Vector3d(u(), u(), u()) * mag;
    target.normal(0) = Eigen::Vector4d(0.6, -0.48, 0.64, 0);
    target.cov(0) = cov4(spd(r, 2)); source.cov(0) = cov4(spd(r, 2));
    Script tree;
    Mat6 H, Hr; Vec6 b, br; double e, er;
    const bool ret = pf.linearize(target, source, tree, T, 0, NullRejector(), &H, &b, &e) && rf.linearize(target, source, tree, T, 0, NullRejector(), &Hr, &br, &er);
    double lo = 1e300, hi = -1e300, rest = 0;
    auto ratio = [&](double x, double y, double scale) {
      if (std::abs(x) > 1e-6 * scale) { const double w = y / x; lo = std::min(lo, w); hi = std::max(hi, w); }
      else rest = std::max(rest, std::abs(y) / (scale + 1e-300));
    };
    for (int i = 0; i < 6; i++) { for (int j = 0; j < 6; j++) ratio(H(i, j), Hr(i, j), H.cwiseAbs().maxCoeff()); ratio(b[i], br[i], b.cwiseAbs().maxCoeff()); }
    if (e > 1e-20) ratio(e, er, e);
    Ev(t, "rob").b("ret", ret && rf.inlier()).i("e", quant(std::min(e * ES, 1e9), 1)).i("lo", quant(lo, S)).i("hi", quant(hi, S)).b("rest", rest < 1e-5);
    // the error at this and at another pose is weighted in the same way
    for (int m = 0; m < 2; m++) {
      const Eigen::Isometry3d D = m ? T * trans(0, mag * u()) : T;
      const double e1 = pf.error(target, source, D), e2 = rf.error(target, source, D);
      if (e1 > 1e-20) Ev(t, "roberr").i("e", quant(std::min(e1 * ES, 1e9), 1)).i("w", quant(e2 / e1, S)).b("same", m == 0);
    }
  }
}

int main(int argc, char** argv) {
  Args a(argc, argv);
  Trace t(a.s("out"));
  Rng r(a.i("seed", 1));
  const std::string mode = a.s("mode", "pair");
  const int iters = a.i("iters", 100);
  if (mode == "pair") pair_random(t, r, iters);
  if (mode == "gen") pair_gen(t, r, a);
  if (mode == "sys") {
    ICPFactor f0; PointToPlaneICPFactor f1; GICPFactor f2;
    for (int i = 0; i < iters; i++) {
      const bool far = r.chance(1, 5);
      const int k = r.in(0, 3);
      if (k == 0) sys_events(t, r, f0, far);
      if (k == 1) sys_events(t, r, f1, far);
      if (k >= 2) sys_events(t, r, f2, far);
    }
  }
  if (mode == "rob") {
    for (int i = 0; i < iters; i++) {
      const int k = r.in(0, 5), n = r.in(10, 60);
      if (k == 0) rob_session<Huber, ICPFactor>(t, r, "huber", n);
      if (k == 1) rob_session<Cauchy, ICPFactor>(t, r, "cauchy", n);
      if (k == 2) rob_session<Huber, PointToPlaneICPFactor>(t, r, "huber", n);
      if (k == 3) rob_session<Cauchy, PointToPlaneICPFactor>(t, r, "cauchy", n);
      if (k == 4) rob_session<Huber, GICPFactor>(t, r, "huber", n);
      if (k == 5) rob_session<Cauchy, GICPFactor>(t, r, "cauchy", n);
    }
  }
  Ev(t, "end");
}
