// Histories of RegistrationPCL, every alignment next to the explicit pipeline and a fresh object, logged for PclTrace.tla.
#include "cases.hpp"
#include "twist.hpp"
#include <pcl/point_types.h>
#include <pcl/console/print.h>
#include <small_gicp/points/point_cloud.hpp>
#include <small_gicp/pcl/pcl_point.hpp>
#include <small_gicp/pcl/pcl_point_traits.hpp>
#include <small_gicp/pcl/pcl_registration.hpp>
#include <small_gicp/util/normal_estimation.hpp>
#include <small_gicp/registration/reduction.hpp>
using namespace small_gicp;
using namespace vt;

using Covs = std::vector<Eigen::Matrix4d>;

// Noisy samples of the same structured scene from slightly different places.
template <typename PointT>
static typename pcl::PointCloud<PointT>::Ptr make_cloud(uint64_t seed, int n) {
  Rng r(seed * 7919 + 13);
  auto c = pcl::make_shared<pcl::PointCloud<PointT>>();
  Eigen::Matrix<double, 6, 1> m;
  for (int i = 0; i < 6; i++) m[i] = r.in(-100, 100) / 1500.0;
  const Eigen::Isometry3d T = se3_exp(m);
  for (int i = 0; i < n; i++) {
    Eigen::Vector3d p(r.in(-1000, 1000) / 300.0, r.in(-1000, 1000) / 350.0, r.in(-1000, 1000) / 400.0);
    const int s = r.in(0, 2);
    p[s] = s == 0 ? 3 : s == 1 ? -2.5 : 2;
    for (int j = 0; j < 3; j++) p[j] += r.in(-1000, 1000) / 12000.0;
    p = T * p;
    PointT q;
    q.x = p[0]; q.y = p[1]; q.z = p[2]; q.data[3] = 1;
    c->push_back(q);
  }
  return c;
}
static Covs make_covs(uint64_t seed, size_t n) {
  Rng r(seed * 104729 + 7);
  Covs covs(n, Eigen::Matrix4d::Zero());
  for (auto& c : covs) {
    Eigen::Matrix3d A;
    for (int i = 0; i < 9; i++) A.data()[i] = r.in(-100, 100) / 200.0;
    c.topLeftCorner<3, 3>() = A * A.transpose() + 0.02 * Eigen::Matrix3d::Identity();
  }
  return covs;
}

struct Config {
  long src = 0, tgt = 0, sckind = 0, sc = 0, tckind = 0, tc = 0;   // kind 0 none, 1 user, 2 estimated
  long res = 1000, k = 20, corr = 1000000, iters = 10, eps = 500, reps = 2000, threads = 4;
  bool vgicp = false;
};

template <typename PointT>
struct Session {
  using Cloud = pcl::PointCloud<PointT>;
  using Reg = RegistrationPCL<PointT, PointT>;
  static const typename Cloud::Ptr& cloud(long id) {
    static std::map<long, typename Cloud::Ptr> m;
    auto& c = m[id];
    if (!c) c = make_cloud<PointT>(id, 70 + 9 * (id % 5));
    return c;
  }
  static std::shared_ptr<PointCloud> native(long id) {
    static std::map<long, std::shared_ptr<PointCloud>> m;
    auto& p = m[id];
    if (!p) {
      std::vector<Eigen::Vector4d> v;
      for (const auto& q : cloud(id)->points) v.push_back(q.getVector4fMap().template cast<double>());
      p = std::make_shared<PointCloud>(v);
    }
    return p;
  }
  static const Covs& estimated(long id, int k) {
    static std::map<std::pair<long, int>, Covs> m;
    auto& c = m[{id, k}];
    if (c.empty()) {
      PointCloud p = *native(id);
      estimate_covariances(p, k);
      c = p.covs;
    }
    return c;
  }
  static Covs covs(long id, long kind, long v) { return kind == 1 ? make_covs(v, cloud(id)->size()) : estimated(id, v); }

  Trace& t;
  Rng& r;
  Reg reg;
  Config c;
  Session(Trace& t, Rng& r) : t(t), r(r) { Ev(t, "new"); }

  void src(long id, bool empty) {
    reg.setInputSource(empty ? pcl::make_shared<Cloud>() : cloud(id));
    Ev(t, "src").i("v", id).b("empty", empty);
    if (!empty && c.src != id) { c.src = id; c.sckind = 0; }
  }
  void tgt(long id, bool empty) {
    reg.setInputTarget(empty ? pcl::make_shared<Cloud>() : cloud(id));
    Ev(t, "tgt").i("v", id).b("empty", empty);
    if (!empty && c.tgt != id) { c.tgt = id; c.tckind = 0; }
  }
  void scov(long id, bool fits) {
    const size_t n = c.src ? cloud(c.src)->size() : 5;
    reg.setSourceCovariances(make_covs(id, fits ? n : n - 1));
    Ev(t, "scov").i("v", id).b("fits", fits);
    if (c.src && fits) { c.sckind = 1; c.sc = id; }
  }
  void tcov(long id, bool fits) {
    const size_t n = c.tgt ? cloud(c.tgt)->size() : 5;
    reg.setTargetCovariances(make_covs(id, fits ? n : n + 1));
    Ev(t, "tcov").i("v", id).b("fits", fits);
    if (c.tgt && fits) { c.tckind = 1; c.tc = id; }
  }
  void swap() {
    reg.swapSourceAndTarget();
    Ev(t, "swap");
    std::swap(c.src, c.tgt); std::swap(c.sckind, c.tckind); std::swap(c.sc, c.tc);
  }
  void clears() { reg.clearSource(); Ev(t, "clears"); c.src = c.sckind = 0; }
  void cleart() { reg.clearTarget(); Ev(t, "cleart"); c.tgt = c.tckind = 0; }
  void type(const std::string& s) {
    reg.setRegistrationType(s);
    Ev(t, "type").str("v", s);
    if (s == "GICP" || s == "VGICP") c.vgicp = s == "VGICP";
  }
  void res(long v) { reg.setVoxelResolution(v / 1000.0); Ev(t, "res").i("v", v); c.res = v <= 0 ? 1000 : v; }
  void k(int v) { if (r.chance(1, 2)) reg.setNumNeighborsForCovariance(v); else reg.setCorrespondenceRandomness(v); Ev(t, "k").i("v", v); c.k = v < 5 ? 5 : v; }
  void threads(int v) { reg.setNumThreads(v); Ev(t, "threads").i("v", v); c.threads = v <= 0 ? 1 : v; }
  void corr(long v) { reg.setMaxCorrespondenceDistance(v / 1000.0); Ev(t, "corr").i("v", v); c.corr = v; }
  void iters(long v) { reg.setMaximumIterations(v); Ev(t, "iters").i("v", v); c.iters = v; }
  void eps(long v) { reg.setTransformationEpsilon(v / 1e6); Ev(t, "eps").i("v", v); c.eps = v; }
  void reps(long v) { reg.setRotationEpsilon(v / 1e6); Ev(t, "reps").i("v", v); c.reps = v; }

  struct Out {
    Eigen::Matrix4d pose;
    std::vector<Eigen::Vector4d> aligned;
    double fit = 0;
    Eigen::Matrix<double, 6, 6> H;
    Covs sc, tc;
    bool converged = false;
    size_t inliers = 0;
  };
  static Out result(Reg& g, const Eigen::Matrix4f& guess) {
    Out o;
    Cloud out;
    g.align(out, guess);
    o.pose = g.getFinalTransformation().template cast<double>();
    for (const auto& q : out.points) o.aligned.push_back(q.getVector4fMap().template cast<double>());
    o.fit = g.getFitnessScore();
    o.H = g.getFinalHessian();
    o.converged = g.hasConverged();
    o.inliers = g.getRegistrationResult().num_inliers;
    if ((g.getRegistrationResult().T_target_source.matrix() - o.pose).norm() > 1e-4) o.fit = std::numeric_limits<double>::quiet_NaN();
    o.sc = g.getSourceCovariances();
    o.tc = g.getTargetCovariances();
    return o;
  }
  void compare(Ev& e, const char* key, const Out& a, const Out& b) {
    auto q = [](double d, double m) { return std::isnan(d) ? NOT_FINITE : quant(d, m); };
    double cl = a.aligned.size() == b.aligned.size() ? 0 : 1e3, cv = a.sc.size() == b.sc.size() && a.tc.size() == b.tc.size() ? 0 : 1e3;
    if (cl == 0) for (size_t i = 0; i < a.aligned.size(); i++) cl = std::max(cl, (a.aligned[i] - b.aligned[i]).norm());
    if (cv == 0) {
      for (size_t i = 0; i < a.sc.size(); i++) cv = std::max(cv, (a.sc[i] - b.sc[i]).norm());
      for (size_t i = 0; i < a.tc.size(); i++) cv = std::max(cv, (a.tc[i] - b.tc[i]).norm());
    }
    std::ostringstream s;
    s << "{\"pose\":" << q((a.pose - b.pose).norm(), 1e5) << ",\"cloud\":" << q(cl, 1e5) << ",\"fit\":" << q(std::abs(a.fit - b.fit), 1e5) << ",\"hess\":"
      << q((a.H - b.H).norm() / (1e-9 + b.H.norm()), 1e5) << ",\"covs\":" << q(cv, 1e5) << ",\"conv\":" << (a.converged == b.converged ? "true" : "false")
      << ",\"inl\":" << (a.inliers == b.inliers ? "true" : "false") << "}";
    e.raw(key, s.str());
  }
  void align() {
    if (!c.src || !c.tgt) return;
    if (!c.sckind) { c.sckind = 2; c.sc = c.k; }
    if (!c.tckind) { c.tckind = 2; c.tc = c.k; }
    Eigen::Matrix<double, 6, 1> m;
    for (int i = 0; i < 6; i++) m[i] = r.in(-100, 100) / 3000.0;
    const Eigen::Matrix4f guess = r.chance(1, 4) ? Eigen::Matrix4f(Eigen::Matrix4f::Identity()) : Eigen::Matrix4f(se3_exp(m).matrix().cast<float>());
    const Out got = result(reg, guess);

    // the explicit pipeline
    Out exp;
    {
      PointCloud s = *native(c.src), g = *native(c.tgt);
      s.covs = covs(c.src, c.sckind, c.sc);
      g.covs = covs(c.tgt, c.tckind, c.tc);
      Registration<GICPFactor, SerialReduction> p;
      p.criteria.rotation_eps = c.reps / 1e6;
      p.criteria.translation_eps = c.eps / 1e6;
      p.rejector.max_dist_sq = (c.corr / 1000.0) * (c.corr / 1000.0);
      p.optimizer.max_iterations = c.iters;
      const Eigen::Isometry3d init(guess.cast<double>());
      RegistrationResult res;
      if (c.vgicp) {
        GaussianVoxelMap map(c.res / 1000.0);
        map.insert(g);
        res = p.align(map, s, map, init);
      } else {
        UnsafeKdTree<PointCloud> tree(g);
        res = p.align(g, s, tree, init);
      }
      exp.pose = res.T_target_source.matrix();
      for (const auto& q : s.points) exp.aligned.push_back(exp.pose * q);
      for (const auto& q : exp.aligned) {
        double best = 1e18;
        for (const auto& w : g.points) best = std::min(best, (w - q).squaredNorm());
        exp.fit += best / s.size();
      }
      exp.H = res.H;
      exp.converged = res.converged;
      exp.inliers = res.num_inliers;
      exp.sc = s.covs;
      exp.tc = g.covs;
    }
    // a fresh object
    Reg f;
    f.setNumThreads(c.threads);
    f.setNumNeighborsForCovariance(c.k);
    f.setVoxelResolution(c.res / 1000.0);
    f.setRotationEpsilon(c.reps / 1e6);
    f.setTransformationEpsilon(c.eps / 1e6);
    f.setMaximumIterations(c.iters);
    f.setMaxCorrespondenceDistance(c.corr / 1000.0);
    f.setRegistrationType(c.vgicp ? "VGICP" : "GICP");
    f.setInputTarget(cloud(c.tgt));
    f.setInputSource(cloud(c.src));
    // covariances that would be estimated anyway are left to the object
    if (c.sckind == 1 || c.sc != c.k || r.chance(1, 2)) f.setSourceCovariances(covs(c.src, c.sckind, c.sc));
    if (c.tckind == 1 || c.tc != c.k || r.chance(1, 2)) f.setTargetCovariances(covs(c.tgt, c.tckind, c.tc));
    const Out fresh = result(f, guess);

    std::ostringstream ref;
    auto kind = [](long kd) { return kd == 1 ? "user" : kd == 2 ? "est" : "none"; };
    ref << "{\"src\":" << c.src << ",\"tgt\":" << c.tgt << ",\"sc\":[\"" << kind(c.sckind) << "\"," << c.sc << "],\"tc\":[\"" << kind(c.tckind) << "\"," << c.tc
        << "],\"type\":\"" << (c.vgicp ? "VGICP" : "GICP") << "\",\"res\":" << c.res << ",\"k\":" << c.k << ",\"corr\":" << c.corr << ",\"iters\":" << c.iters
        << ",\"eps\":" << c.eps << ",\"reps\":" << c.reps << ",\"threads\":" << c.threads << "}";
    Ev e(t, "align");
    e.raw("ref", ref.str());
    compare(e, "pipeline", got, exp);
    compare(e, "fresh", got, fresh);
  }

  void op(int o) {
    switch (o) {
      case 1: src(1, false); break;
      case 2: src(3, false); break;
      case 3: tgt(2, false); break;
      case 4: tgt(4, false); break;
      case 5: scov(r.in(1, 3), true); break;
      case 6: tcov(r.in(1, 3), true); break;
      case 7: swap(); break;
      case 8: clears(); break;
      case 9: cleart(); break;
      case 10: type(c.vgicp ? "GICP" : "VGICP"); break;
      case 11: res(c.res == 1500 ? 700 : 1500); break;
      case 12: k(c.k == 8 ? 12 : 8); break;
      case 13: align(); break;
      case 14: src(r.in(1, 6), false); break;
      case 15: tgt(r.in(1, 6), false); break;
      case 16: r.chance(1, 2) ? src(1, true) : tgt(2, true); break;
      case 17: r.chance(1, 2) ? scov(4, false) : tcov(4, false); break;
      case 18: type(r.pick(std::vector<std::string>{"GICP", "VGICP", "ICP", "vgicp", ""})); break;
      case 19: res(r.pick(IVec{-5, 0, 400, 1000, 2000, 2000})); break;
      case 20: k(r.pick(IVec{-1, 3, 5, 10, 20, 100})); break;
      case 21: threads(r.pick(IVec{-1, 0, 1, 1, 1, 1, 2})); break;
      case 22: corr(r.pick(IVec{300, 600, 1000, 1000000})); break;
      case 23: iters(r.pick(IVec{0, 1, 2, 4, 20})); break;
      case 24: eps(r.pick(IVec{1, 500, 20000})); break;
      case 25: reps(r.pick(IVec{1, 2000, 20000})); break;
    }
  }
};

template <typename PointT>
static void run(Trace& t, Rng& r, const Args& a) {
  if (a.s("mode") == "gen") {
    const auto cases = read_cases(a.s("cases"));
    for (size_t i = a.i("shard"); i < cases.size(); i += a.i("nshards", 1)) {
      Session<PointT> s(t, r);
      s.threads(1);
      s.iters(3);
      s.k(10);
      if (cases[i][0] % 2) s.type("VGICP");
      s.src(1, false);
      s.tgt(2, false);
      s.align();
      for (size_t j = 3; j < cases[i].size(); j++) s.op(cases[i][j]);
      if (!s.c.src) s.src(1, false);
      if (!s.c.tgt) s.tgt(2, false);
      s.align();
    }
  } else {
    for (int it = 0; it < a.i("iters", 50); it++) {
      Session<PointT> s(t, r);
      if (r.chance(9, 10)) s.threads(1);
      if (r.chance(3, 4)) s.iters(r.in(1, 5));
      if (r.chance(1, 2)) s.type("VGICP");
      for (int n = r.in(5, 40); n; n--) {
        if (r.chance(1, 3)) s.align();
        else if (r.chance(2, 3)) s.op(r.pick(IVec{5, 6, 7, 10, 11, 14, 15, 14, 15, 7, 8, 9}));
        else s.op(r.in(1, 25));
      }
      if (s.c.src && s.c.tgt) s.align();
    }
  }
}

int main(int argc, char** argv) {
  Args a(argc, argv);
  pcl::console::setVerbosityLevel(pcl::console::L_ALWAYS);
  Trace t(a.s("out"));
  Rng r(a.i("seed", 1));
#ifdef SECOND
  run<pcl::PointNormalCovariance>(t, r, a);
#else
  run<pcl::PointXYZ>(t, r, a);
#endif
  Ev(t, "end");
}
