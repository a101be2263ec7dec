// Calls of the one-call helpers next to the explicit pipeline, logged for HelperTrace.tla.
#include "cases.hpp"
#include "twist.hpp"
#include "gomp_teams.hpp"
#include <small_gicp/points/point_cloud.hpp>
#include <small_gicp/ann/kdtree.hpp>
#include <small_gicp/ann/gaussian_voxelmap.hpp>
#include <small_gicp/factors/icp_factor.hpp>
#include <small_gicp/factors/plane_icp_factor.hpp>
#include <small_gicp/factors/gicp_factor.hpp>
#include <small_gicp/util/lie.hpp>
#include <small_gicp/util/downsampling.hpp>
#include <small_gicp/util/normal_estimation.hpp>
#include <small_gicp/registration/reduction.hpp>
#include <small_gicp/registration/registration.hpp>
#include <small_gicp/registration/registration_helper.hpp>
using namespace small_gicp;
using namespace vt;

static std::vector<Eigen::Vector4d> scene(Rng& r, int n, double move) {
  Eigen::Matrix<double, 6, 1> m;
  for (int i = 0; i < 6; i++) m[i] = move * r.in(-100, 100) / 1500.0;
  const Eigen::Isometry3d T = se3_exp(m);
  std::vector<Eigen::Vector4d> v;
  for (int i = 0; i < n; i++) {
    Eigen::Vector3d p(r.in(-100000, 100000) / 30000.0, r.in(-100000, 100000) / 35000.0, r.in(-100000, 100000) / 40000.0);
    const int s = r.in(0, 2);
    p[s] = s == 0 ? 3 : s == 1 ? -2.5 : 2;
    for (int j = 0; j < 3; j++) p[j] += r.in(-100000, 100000) / 1500000.0;
    p = T * p;
    v.push_back({p[0], p[1], p[2], 1.0});
  }
  return v;
}
template <typename T, int D>
static std::vector<Eigen::Matrix<T, D, 1>> convert(Rng& r, const std::vector<Eigen::Vector4d>& v) {
  std::vector<Eigen::Matrix<T, D, 1>> o(v.size());
  const int w = r.in(0, 2);
  for (size_t i = 0; i < v.size(); i++) {
    o[i].template head<3>() = v[i].head<3>().template cast<T>();
    if constexpr (D == 4) o[i][3] = w == 0 ? T(1) : w == 1 ? T(0) : T(r.in(-5, 5));   // the fourth component carries no information
  }
  return o;
}
// exactly what the call is given
template <typename T, int D>
static std::shared_ptr<PointCloud> native(const std::vector<Eigen::Matrix<T, D, 1>>& v) {
  auto c = std::make_shared<PointCloud>();
  c->resize(v.size());
  for (size_t i = 0; i < v.size(); i++) c->point(i) << double(v[i][0]), double(v[i][1]), double(v[i][2]), 1.0;
  return c;
}

struct Pre { std::shared_ptr<PointCloud> cloud; std::shared_ptr<KdTree<PointCloud>> tree; };
static Pre pre_pipeline(std::string& plan, const PointCloud& c, long res, int k) {
  Pre p;
  p.cloud = voxelgrid_sampling(c, res / 1000.0);
  p.tree = std::make_shared<KdTree<PointCloud>>(p.cloud);
  estimate_normals_covariances(*p.cloud, *p.tree, k);
  plan += (plan.empty() ? "" : ",") + ("{\"stage\":\"down\",\"res\":" + std::to_string(res) + "},{\"stage\":\"tree\"},{\"stage\":\"feat\",\"k\":" + std::to_string(k) + "}");
  return p;
}
static std::shared_ptr<GaussianVoxelMap> map_pipeline(std::string& plan, const PointCloud& c, long res) {
  auto m = std::make_shared<GaussianVoxelMap>(res / 1000.0);
  m->insert(c);
  plan += (plan.empty() ? "" : ",") + ("{\"stage\":\"map\",\"res\":" + std::to_string(res) + "}");
  return m;
}

struct Set {
  long vox = 1000, down = 250, corr = 1000, reps = 1745, teps = 1000, threads = 4, iters = 20, init = 0;
  bool verbose = false;
};
static const char* TYPES[] = {"ICP", "PLANE_ICP", "GICP", "VGICP"};
static Eigen::Isometry3d guess(long id) {
  if (!id) return Eigen::Isometry3d::Identity();
  Rng r(id);
  Eigen::Matrix<double, 6, 1> m;
  for (int i = 0; i < 6; i++) m[i] = r.in(-100, 100) / 1200.0;
  return se3_exp(m);
}
static double radians(const Set& s) { return s.reps == 1745 ? 0.1 * M_PI / 180.0 : s.reps / 1e6; }
template <typename Factor, typename Target, typename Tree>
static RegistrationResult reg_pipeline(std::string& plan, const char* type, const Target& target, const PointCloud& source, const Tree& tree, const Set& s) {
  Registration<Factor, SerialReduction> g;
  g.rejector.max_dist_sq = (s.corr / 1000.0) * (s.corr / 1000.0);
  g.criteria.rotation_eps = radians(s);
  g.criteria.translation_eps = s.teps / 1e6;
  g.optimizer.max_iterations = s.iters;
  plan += (plan.empty() ? "" : ",") + ("{\"stage\":\"reg\",\"type\":\"" + std::string(type) + "\",\"corr\":" + std::to_string(s.corr) + ",\"reps\":" + std::to_string(s.reps) + ",\"teps\":" +
          std::to_string(s.teps) + ",\"iters\":" + std::to_string(s.iters) + ",\"init\":" + std::to_string(s.init) + "}");
  return g.align(target, source, tree, guess(s.init));
}
static RegistrationResult reg_any(std::string& plan, int type, const PointCloud& t, const PointCloud& s, const KdTree<PointCloud>& tree, const GaussianVoxelMap* map, const Set& set) {
  switch (type) {
    case 0: return reg_pipeline<ICPFactor>(plan, "ICP", t, s, tree, set);
    case 1: return reg_pipeline<PointToPlaneICPFactor>(plan, "PLANE_ICP", t, s, tree, set);
    case 2: return reg_pipeline<GICPFactor>(plan, "GICP", t, s, tree, set);
    default: return reg_pipeline<GICPFactor>(plan, "VGICP", *map, s, *map, set);
  }
}
static double rel(double d, double m) { return d / (1e-9 + m); }
static long q(double d, double m = 1e5) { return std::isnan(d) ? NOT_FINITE : quant(d, m); }
struct Diff {
  double pose, hess, rhs, err;
  bool conv, inl, iters;
  Diff(const RegistrationResult& a, const RegistrationResult& b)
      : pose((a.T_target_source.matrix() - b.T_target_source.matrix()).norm()), hess(rel((a.H - b.H).norm(), b.H.norm())), rhs(rel((a.b - b.b).norm(), b.H.norm())),
        err(rel(std::abs(a.error - b.error), std::abs(b.error))), conv(a.converged == b.converged), inl(a.num_inliers == b.num_inliers), iters(a.iterations == b.iterations) {}
  bool same() const { return pose <= 1e-3 && hess <= 1e-3 && rhs <= 1e-3 && err <= 1e-3 && conv && inl && iters; }
  std::string json() const {
    std::ostringstream o;
    auto t = [](bool b) { return b ? "true" : "false"; };
    o << "{\"pose\":" << q(pose) << ",\"hess\":" << q(hess) << ",\"rhs\":" << q(rhs) << ",\"err\":" << q(err) << ",\"conv\":" << t(conv) << ",\"inl\":" << t(inl) << ",\"iters\":" << t(iters) << "}";
    return o.str();
  }
};
struct Alt {
  std::string s;
  void add(const char* f) { s += (s.empty() ? "\"" : ",\"") + std::string(f) + "\""; }
};

// differences of two preprocessed clouds whose points may come in any order
struct CloudDiff {
  bool count = false, tree = true;
  double points = 0, normals = 0, covs = 0;
  CloudDiff(const PointCloud& a, const PointCloud& b) {
    count = a.points.size() == b.points.size() && a.normals.size() == a.points.size() && a.covs.size() == a.points.size();
    if (!count) return;
    std::vector<bool> used(b.size(), false);
    for (size_t i = 0; i < a.size(); i++) {
      size_t best = 0;
      double d = 1e18;
      for (size_t j = 0; j < b.size(); j++) {
        const double e = (a.points[i] - b.points[j]).squaredNorm();
        if (e < d) { d = e; best = j; }
      }
      if (!(d < 1e17) || used[best]) { count = false; return; }
      used[best] = true;
      points = std::max(points, std::sqrt(d));
      normals = std::max(normals, (a.normals[i] - b.normals[best]).norm());
      covs = std::max(covs, (a.covs[i] - b.covs[best]).norm());
      if (!a.covs[i].allFinite() || !a.normals[i].allFinite() || !a.points[i].allFinite()) covs = std::numeric_limits<double>::quiet_NaN();
    }
  }
  bool same() const { return count && points < 1e-6 && normals < 1e-6 && covs < 1e-6; }
  std::string json() const {
    std::ostringstream o;
    o << "{\"count\":" << (count ? "true" : "false") << ",\"points\":" << q(points, 1e7) << ",\"normals\":" << q(normals, 1e7) << ",\"covs\":" << q(covs, 1e7) << ",\"tree\":" << (tree ? "true" : "false") << "}";
    return o.str();
  }
};

struct Driver {
  Trace& t;
  Rng& r;
  std::vector<Eigen::Vector4d> base;

  template <typename In>
  void pre_call(const In& in, const PointCloud& nat, long res, int k, int threads) {
    std::string plan;
    const Pre exp = pre_pipeline(plan, nat, res, k);
    Teams::start();
    std::pair<PointCloud::Ptr, std::shared_ptr<KdTree<PointCloud>>> got;
    if (res == 1250 && k == 10 && threads == 4) got = preprocess_points(in, res / 1000.0);
    else got = preprocess_points(in, res / 1000.0, k, threads);
    const IVec teams = Teams::stop();
    CloudDiff d(*got.first, *exp.cloud);
    for (int n = 0; n < 12; n++) {   // the tree searches the returned cloud
      const Eigen::Vector4d query(r.in(-400, 400) / 100.0, r.in(-400, 400) / 100.0, r.in(-400, 400) / 100.0, 1);
      size_t idx = 0;
      double sq = -1, best = 1e18;
      const size_t f = traits::nearest_neighbor_search(*got.second, query, &idx, &sq);
      for (const auto& p : got.first->points) best = std::min(best, (p - query).squaredNorm());
      if (f != (got.first->empty() ? 0 : 1)) d.tree = false;
      if (f && (idx >= got.first->size() || sq != best || (got.first->point(idx) - query).squaredNorm() != best)) d.tree = false;
    }
    Alt alt;
    std::string skip;
    if (r.chance(1, 2)) {
      if (!CloudDiff(*pre_pipeline(skip, nat, res + 100, k).cloud, *exp.cloud).same()) alt.add("res");
      if (!CloudDiff(*pre_pipeline(skip, nat, res, k + 1).cloud, *exp.cloud).same()) alt.add("k");
    }
    Ev e(t, "pre");
    e.i("res", res).i("k", k).i("threads", threads).raw("plan", "[" + plan + "]").v("teams", teams).raw("diff", d.json()).raw("alt", "[" + alt.s + "]");
  }
  void pre(int fn, long res, int k, int threads, int n) {
    const auto v = scene(r, n, 1);
    auto f3 = convert<float, 3>(r, v);
    auto f4 = convert<float, 4>(r, v);
    auto d3 = convert<double, 3>(r, v);
    auto d4 = convert<double, 4>(r, v);
    switch (fn) {
      case 0: { auto c = native(d3); pre_call(*c, *c, res, k, threads); break; }
      case 1: pre_call(f3, *native(f3), res, k, threads); break;
      case 2: pre_call(f4, *native(f4), res, k, threads); break;
      case 3: pre_call(d3, *native(d3), res, k, threads); break;
      default: pre_call(d4, *native(d4), res, k, threads); break;
    }
  }
  static std::shared_ptr<PointCloud> flat(const GaussianVoxelMap& m) {
    auto c = std::make_shared<PointCloud>();
    c->resize(m.flat_voxels.size());
    for (size_t i = 0; i < m.flat_voxels.size(); i++) {
      c->point(i) = m.flat_voxels[i]->second.mean;
      c->normal(i) = Eigen::Vector4d(m.flat_voxels[i]->second.num_points, 0, 0, 0);
      c->cov(i) = m.flat_voxels[i]->second.cov;
    }
    return c;
  }
  void vmap(long res, int n) {
    std::string plan, skip;
    const Pre p = pre_pipeline(skip, *native(scene(r, n, 1)), 300, 10);
    const auto exp = map_pipeline(plan, *p.cloud, res);
    const auto got = create_gaussian_voxelmap(*p.cloud, res / 1000.0);
    Alt alt;
    CloudDiff d(*flat(*got), *flat(*exp));
    if (!CloudDiff(*flat(*map_pipeline(skip, *p.cloud, res + 100)), *flat(*exp)).same()) alt.add("mres");
    Ev(t, "map").i("res", res).raw("plan", "[" + plan + "]").raw("diff", d.json()).raw("alt", "[" + alt.s + "]");
  }

  using Run = std::function<RegistrationResult(std::string&, int, const Set&)>;
  void align_call(const char* fn, int type, const Set& s, const Run& helper, const Run& pipeline, bool vox, bool down) {
    std::string plan, skip;
    RegistrationResult exp(Eigen::Isometry3d::Identity());
    const bool none = std::string(fn) == "tree" && type == 3;
    if (!none) exp = pipeline(plan, type, s);
    std::ostringstream spoken;
    auto* old = std::cout.rdbuf(spoken.rdbuf());
    Teams::start();
    const RegistrationResult got = helper(skip, type, s);
    const IVec teams = Teams::stop();
    std::cout.rdbuf(old);
    Alt alt;
    if (!none && (vox || r.chance(1, 3))) {
      auto differs = [&](const char* name, int ty, auto change) {
        Set a = s;
        change(a);
        std::string skip2;
        if (!Diff(pipeline(skip2, ty, a), exp).same()) alt.add(name);
      };
      if (vox) differs("vox", type, [](Set& a) { a.vox = a.vox == 1000 ? 700 : 1000; });
      if (down) differs("down", type, [](Set& a) { a.down = a.down == 250 ? 400 : 250; });
      differs("corr", type, [](Set& a) { a.corr = a.corr == 1000 ? 250 : 1000; });
      differs("reps", type, [](Set& a) { a.reps = a.reps == 1745 ? 20 : 1745; });
      differs("teps", type, [](Set& a) { a.teps = a.teps == 1000 ? 10 : 1000; });
      differs("iters", type, [](Set& a) { a.iters = a.iters <= 2 ? 20 : 1; });
      differs("init", type, [](Set& a) { a.init = a.init ? 0 : 77; });
      if (type < 3) differs("type", (type + 1) % 3, [](Set&) {});
    }
    std::ostringstream st;
    st << "{\"vox\":" << s.vox << ",\"down\":" << s.down << ",\"corr\":" << s.corr << ",\"reps\":" << s.reps << ",\"teps\":" << s.teps << ",\"threads\":" << s.threads << ",\"iters\":" << s.iters << ",\"init\":"
       << s.init << ",\"verbose\":" << (s.verbose && !none && s.iters ? "true" : "false") << "}";
    // a quiet call says nothing; a verbose one reports its iterations (one line announces the optimization)
    const bool spoke = spoken.str().find("iter") != std::string::npos || (!s.verbose && !spoken.str().empty());
    Ev e(t, "align");
    e.str("fn", fn).str("type", TYPES[type]).raw("set", st.str()).raw("plan", "[" + plan + "]").v("teams", teams).b("spoke", spoke);
    e.b("converged", got.converged).i("inliers", got.num_inliers).i("iterations", got.iterations);
    e.b("atzero", got.T_target_source.matrix() == Eigen::Matrix4d::Identity()).b("atinit", got.T_target_source.matrix() == guess(s.init).matrix());
    e.raw("diff", Diff(got, exp).json()).raw("alt", "[" + alt.s + "]");
  }
  template <typename T, int D>
  void align_raw(const char* fn, int type, const Set& s, int n, bool defaults) {
    const auto tv = convert<T, D>(r, scene(r, n, 1)), sv = convert<T, D>(r, scene(r, n + 20, 1));
    const auto tn = native(tv), sn = native(sv);
    align_call(fn, type, s,
      [&](std::string&, int ty, const Set& s) {
        if (defaults) return align(tv, sv, guess(s.init));
        return align(tv, sv, guess(s.init), setting(ty, s));
      },
      [&](std::string& plan, int ty, const Set& s) {
        const Pre a = pre_pipeline(plan, *tn, s.down, 10);
        std::string skip;
        const Pre b = pre_pipeline(skip, *sn, s.down, 10);
        std::shared_ptr<GaussianVoxelMap> m;
        if (ty == 3) m = map_pipeline(plan, *a.cloud, s.vox);
        return reg_any(plan, ty, *a.cloud, *b.cloud, *a.tree, m.get(), s);
      }, type == 3, true);
  }
  static RegistrationSetting setting(int type, const Set& s) {
    RegistrationSetting g;
    g.type = static_cast<RegistrationSetting::RegistrationType>(type);
    g.voxel_resolution = s.vox / 1000.0;
    g.downsampling_resolution = s.down / 1000.0;
    g.max_correspondence_distance = s.corr / 1000.0;
    g.rotation_eps = radians(s);
    g.translation_eps = s.teps / 1e6;
    g.num_threads = s.threads;
    g.max_iterations = s.iters;
    g.verbose = s.verbose;
    return g;
  }
  void align_any(int fn, int type, const Set& s, int n, bool defaults = false) {
    if (fn >= 2) {
      switch (fn) {
        case 2: return align_raw<float, 3>("f3", type, s, n, defaults);
        case 3: return align_raw<float, 4>("f4", type, s, n, defaults);
        case 4: return align_raw<double, 3>("d3", type, s, n, defaults);
        default: return align_raw<double, 4>("d4", type, s, n, defaults);
      }
    }
    std::string skip;
    const Pre a = pre_pipeline(skip, *native(scene(r, n, 1)), 250, 12), b = pre_pipeline(skip, *native(scene(r, n, 1)), 250, 12);
    if (fn == 0) {
      align_call("tree", type, s, [&](std::string&, int ty, const Set& s) {
          if (defaults) return align(*a.cloud, *b.cloud, *a.tree, guess(s.init));
          return align(*a.cloud, *b.cloud, *a.tree, guess(s.init), setting(ty, s)); },
        [&](std::string& plan, int ty, const Set& s) { return reg_any(plan, ty, *a.cloud, *b.cloud, *a.tree, nullptr, s); }, false, false);
    } else {
      // the resolution of the map that is handed over is not the one of the settings
      const auto m = map_pipeline(skip, *a.cloud, r.chance(1, 2) ? 800 : 1300);
      align_call("map", 3, s, [&](std::string&, int ty, const Set& s) { return align(*m, *b.cloud, guess(s.init), setting(ty, s)); },
        [&](std::string& plan, int, const Set& s) { return reg_any(plan, 3, *a.cloud, *b.cloud, *a.tree, m.get(), s); }, false, false);
    }
  }
  Set deviate(int dev) {
    Set s;
    if (dev & 1) s.vox = r.pick(IVec{500, 700, 1500});
    if (dev & 2) s.down = r.pick(IVec{150, 400, 600});
    if (dev & 4) s.corr = r.pick(IVec{200, 400, 600, 3000});
    if (dev & 8) s.reps = r.pick(IVec{20, 100, 20000, 100000});
    if (dev & 16) s.teps = r.pick(IVec{10, 100, 20000, 200000});
    if (dev & 32) s.threads = r.pick(IVec{1, 1, 2, 3, 6});
    if (dev & 64) s.iters = r.pick(IVec{0, 1, 2, 3, 30});
    if (dev & 128) s.verbose = true;
    if (dev & 256) s.init = r.in(1, 1000);
    return s;
  }
};

int main(int argc, char** argv) {
  Args a(argc, argv);
  Trace t(a.s("out"));
  Rng r(a.i("seed", 1));
  omp_set_num_threads(5);
  Driver d{t, r};
  if (a.s("mode") == "gen") {
    const auto cases = read_cases(a.s("cases"));
    for (size_t i = a.i("shard"); i < cases.size(); i += a.i("nshards", 1)) d.align_any(cases[i][0], cases[i][1], d.deviate(cases[i][2]), r.in(250, 500));
  }
  for (int fn = 0; fn <= 5; fn++) if (fn != 1) d.align_any(fn, 2, Set(), 300, true);   // the documented defaults
  for (int i = 0; i < a.i("iters", 20); i++) {
    d.pre(r.in(0, 4), r.pick(IVec{200, 300, 500, 1250}), r.pick(IVec{5, 8, 10, 10, 20, 40}), r.pick(IVec{1, 2, 3, 4, 6}), r.in(1, 900));
    d.vmap(r.pick(IVec{300, 500, 1000, 2000}), r.in(1, 500));
    const int fn = r.in(0, 5);
    d.align_any(fn, r.in(0, 3), d.deviate(r.in(0, 511)), r.in(200, 900));
  }
  d.pre(r.in(0, 4), 1250, 10, 4, 500);
  Ev(t, "end").b("full", t.count > 150);
}
