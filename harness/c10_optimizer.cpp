// The real optimizers on scripted reductions and general factors, logged for OptTrace.tla.
#include "cases.hpp"
#include "twist.hpp"
#include <small_gicp/points/point_cloud.hpp>
#include <small_gicp/registration/registration.hpp>
#include <small_gicp/registration/optimizer.hpp>
using namespace small_gicp;
using namespace vt;
using Mat6 = Eigen::Matrix<double, 6, 6>;
using Vec6 = Eigen::Matrix<double, 6, 1>;
constexpr double QS = 16384.0;

struct Tree {};
struct Ctx;
static Ctx* ctx = nullptr;

struct Ctx {
  Trace& t;
  Rng& r;
  // script
  IVec outcomes, kinds;
  bool exact;
  std::function<void(int, IVec&, IVec&)> system;  // step index -> H (36), b (6, times 1024)
  const void *target, *source, *tree;
  size_t nsrc;
  long tag;
  // progress
  std::vector<Eigen::Isometry3d> poses;
  Eigen::Isometry3d lin_pose;
  long eR = 0, eG = 0, nlin = 0, ntrial = 0, inl = 0;
  IVec H, b, HR, bR, HG, bG;
  // pending evaluation
  int phase = 0;  // 0 none, 1 linearization, 2 error
  bool hasR = false, hasG = false, ok = true, nan = false;
  Eigen::Isometry3d pose;
  long e = 0, trialR = 0, trialG = 0;
  std::map<long, std::array<long, 3>> known;  // errors already given for a pose since the last linearization

  Ctx(Trace& t, Rng& r) : t(t), r(r) {}
  long pose_id(const Eigen::Isometry3d& T) {
    for (size_t i = poses.size(); i-- > 0;) if ((poses[i].matrix() - T.matrix()).norm() <= 1e-11 * (1.0 + T.translation().norm())) return i;
    poses.push_back(T);
    return poses.size() - 1;
  }
  bool grid = true;  // the last relative twist was a multiple of 1/QS, and its pose is a proper rigid transform
  IVec rel(const Eigen::Isometry3d& T) {
    const Vec6 d = se3_log(lin_pose.inverse() * T);
    IVec v;
    grid = (T.linear().transpose() * T.linear() - Eigen::Matrix3d::Identity()).norm() < 1e-9 && T.linear().determinant() > 0 && (T.matrix().row(3) - Eigen::RowVector4d(0, 0, 0, 1)).norm() == 0.0;
    for (int i = 0; i < 6; i++) {
      v.push_back(quant(d[i], QS));
      if (exact) grid = grid && std::abs(d[i] * QS - std::round(d[i] * QS)) < 1e-4;
    }
    return v;
  }
  void flush() {
    if (phase == 0) return;
    const bool good = ok && hasR && hasG;
    if (phase == 1) { const IVec rl = rel(pose); Ev(t, "lin").i("pose", pose_id(pose)).v("rel", rl).v("H", H).v("b", b).i("e", e).i("inl", inl).b("grid", grid).b("ok", good); lin_pose = pose; }
    else { const IVec rl = rel(pose); Ev(t, "err").i("pose", pose_id(pose)).v("rel", rl).b("grid", grid).i("e", nan ? 0 : e).b("nan", nan).b("ok", good); }
    phase = 0;
  }
  void begin(int ph, bool isR, const Eigen::Isometry3d& T) {
    if (phase != ph || (isR ? hasR : hasG) || pose.matrix() != T.matrix()) {
      flush();
      phase = ph;
      hasR = hasG = false;
      ok = true;
      nan = false;
      e = 0;
      pose = T;
      if (ph == 1) {
        H.assign(36, 0);
        b.assign(6, 0);
        system(nlin++, H, b);
        HR.assign(36, 0); HG.assign(36, 0); bR.assign(6, 0); bG.assign(6, 0);
        for (int i = 0; i < 6; i++) {
          const long d = r.in(-2, 2);
          for (int j = 0; j < 6; j++) { const long k = i == j ? d : 0; HG[i * 6 + j] = k; HR[i * 6 + j] = H[i * 6 + j] - k; }
          bG[i] = r.in(-300, 300);
          bR[i] = b[i] - bG[i];
        }
        eR = r.in(0, 1000);
        eG = r.in(0, 1000);
        known.clear();
      } else {
        const long id = pose_id(T);
        if ((lin_pose.matrix() - T.matrix()).norm() <= 1e-11) trialR = eR, trialG = eG;
        else if (known.count(id)) { trialR = known[id][0]; trialG = known[id][1]; nan = known[id][2]; }
        else {
          static const long D[7][2] = {{-1, -1}, {1, -3}, {1, -1}, {-2, 3}, {2, 1}, {0, 0}, {0, 0}};
          const long o = outcomes[ntrial++ % outcomes.size()];
          trialR = eR + D[o][0];
          trialG = eG + D[o][1];
          nan = o == 5;
          known[id] = {trialR, trialG, nan};
        }
      }
    }
    (isR ? hasR : hasG) = true;
  }
};

struct MockRejector { long tag = 0; };
struct MockFactor {
  struct Setting { Setting(long t = 0) : tag(t) {} long tag; };
  MockFactor(const Setting& s = Setting()) : tag(s.tag) {}
  bool inlier() const { return in; }
  long tag;
  bool in = false;
};
struct MockReduction {
  template <typename A, typename B, typename C, typename D, typename F>
  std::tuple<Mat6, Vec6, double> linearize(const A& target, const B& source, const C& tree, const D& rejector, const Eigen::Isometry3d& T, std::vector<F>& factors) const {
    ctx->begin(1, true, T);
    ctx->ok = ctx->ok && &target == ctx->target && &source == ctx->source && &tree == ctx->tree && rejector.tag == ctx->tag && factors.size() == ctx->nsrc;
    ctx->inl = 0;
    for (auto& f : factors) { ctx->ok = ctx->ok && f.tag == ctx->tag + 1; f.in = ctx->r.chance(1, 2); ctx->inl += f.in; }
    Mat6 H;
    Vec6 b;
    for (int i = 0; i < 6; i++) { b[i] = ctx->bR[i] / 1024.0; for (int j = 0; j < 6; j++) H(i, j) = ctx->HR[i * 6 + j]; }
    ctx->e += ctx->eR;
    return {H, b, static_cast<double>(ctx->eR)};
  }
  template <typename A, typename B, typename F>
  double error(const A& target, const B& source, const Eigen::Isometry3d& T, std::vector<F>& factors) const {
    ctx->begin(2, true, T);
    ctx->ok = ctx->ok && &target == ctx->target && &source == ctx->source && factors.size() == ctx->nsrc;
    ctx->e += ctx->trialR;
    return ctx->nan ? std::nan("") : static_cast<double>(ctx->trialR);
  }
};
struct MockGeneral {
  template <typename A, typename B, typename C>
  void update_linearized_system(const A& target, const B& source, const C& tree, const Eigen::Isometry3d& T, Mat6* H, Vec6* b, double* e) const {
    ctx->begin(1, false, T);
    ctx->ok = ctx->ok && &target == ctx->target && &source == ctx->source && &tree == ctx->tree;
    for (int i = 0; i < 6; i++) { (*b)[i] += ctx->bG[i] / 1024.0; for (int j = 0; j < 6; j++) (*H)(i, j) += ctx->HG[i * 6 + j]; }
    *e += ctx->eG;
    ctx->e += ctx->eG;
  }
  template <typename A, typename B>
  void update_error(const A& target, const B& source, const Eigen::Isometry3d& T, double* e) const {
    ctx->begin(2, false, T);
    ctx->ok = ctx->ok && &target == ctx->target && &source == ctx->source;
    *e += ctx->trialG;
    ctx->e += ctx->trialG;
  }
};

struct Config { bool lm; long maxit, maxin, f, lam1024, reps, teps; bool align; };

template <typename Opt>
static void configure(Opt& o, const Config& c) {
  o.max_iterations = c.maxit;
  if constexpr (std::is_same<Opt, GaussNewtonOptimizer>::value) o.lambda = c.lam1024 / 1024.0;
  else { o.max_inner_iterations = c.maxin; o.init_lambda = c.lam1024 / 1024.0; o.lambda_factor = c.f; }
}

template <typename Opt>
static void execute(Trace& t, Rng& r, Ctx& x, const Config& c) {
  PointCloud target, source;
  target.resize(r.pick(IVec{0, 3, 12}));
  source.resize(r.pick(IVec{0, 1, 5, 12, 20}));
  Tree tree;
  const Eigen::Isometry3d init = r.chance(1, 4) ? Eigen::Isometry3d::Identity() : random_isometry(r, 20.0);
  x.target = &target;
  x.source = &source;
  x.tree = &tree;
  x.nsrc = source.size();
  x.tag = r.in(1, 1000000);
  x.lin_pose = init;
  ctx = &x;
  Ev(t, "start").str("opt", c.lm ? "lm" : "gn").i("maxit", c.maxit).i("maxin", c.maxin).i("f", c.f).i("lam", c.lam1024).i("reps", c.reps).i("teps", c.teps).b("exact", x.exact).i("init", x.pose_id(init));
  RegistrationResult res;
  const bool verbose = r.chance(1, 8);
  if (c.align) {
    Registration<MockFactor, MockReduction, MockGeneral, MockRejector, Opt> reg;
    reg.criteria.rotation_eps = c.reps / QS;
    reg.criteria.translation_eps = c.teps / QS;
    reg.rejector.tag = x.tag;
    reg.point_factor.tag = x.tag + 1;
    configure(reg.optimizer, c);
    reg.optimizer.verbose = verbose;
    const auto& creg = reg;
    res = creg.align(target, source, tree, init);
  } else {
    Opt opt;
    configure(opt, c);
    opt.verbose = verbose;
    TerminationCriteria crit;
    crit.rotation_eps = c.reps / QS;
    crit.translation_eps = c.teps / QS;
    MockRejector rej{x.tag};
    MockReduction red;
    MockGeneral gen;
    std::vector<MockFactor> factors(source.size(), MockFactor(MockFactor::Setting{x.tag + 1}));
    res = opt.optimize(target, source, tree, rej, crit, red, init, factors, gen);
  }
  x.flush();
  IVec H, b;
  for (int i = 0; i < 6; i++) { b.push_back(lat(res.b[i], 1.0 / 1024)); for (int j = 0; j < 6; j++) H.push_back(lat(res.H(i, j))); }
  const IVec rl = x.rel(res.T_target_source);
  Ev(t, "done").i("pose", x.pose_id(res.T_target_source)).v("rel", rl).b("grid", x.grid).b("conv", res.converged).i("iters", res.iterations).v("H", H).v("b", b)
    .i("e", lat(res.error)).i("inl", res.num_inliers);
}

static void run(Trace& t, Rng& r, Ctx& x, const Config& c) {
  if (c.lm) execute<LevenbergMarquardtOptimizer>(t, r, x, c);
  else execute<GaussNewtonOptimizer>(t, r, x, c);
}

int main(int argc, char** argv) {
  Args a(argc, argv);
  Trace t(a.s("out"));
  Rng r(a.i("seed", 1));
  std::cerr.setstate(std::ios::failbit);
  std::cout.setstate(std::ios::failbit);
  const bool lm = a.s("opt", "lm") == "lm";
  if (a.s("mode") == "gen") {
    auto cs = read_cases(a.s("cases"));
    const int nt = a.i("trials", 3);
    for (size_t k = a.i("shard"); k < cs.size(); k += a.i("nshards", 1)) {
      const IVec& v = cs[k];
      Ctx x(t, r);
      x.exact = true;
      x.outcomes.assign(v.begin() + 2, v.begin() + 2 + nt);
      x.kinds.assign(v.begin() + 2 + nt, v.end());
      x.system = [&](int step, IVec&, IVec& b) {
        const long big = r.chance(1, 2) ? 4096 : -4096, small = r.chance(1, 2) ? 4 : -4, edge = r.chance(1, 2) ? 64 : -64;
        const int ar = r.in(0, 2), at = 3 + r.in(0, 2);
        switch (x.kinds[step % x.kinds.size()]) {
          case 0: b[ar] = big; b[at] = big; break;
          case 1: b[ar] = small; b[at] = big; break;
          case 2: b[ar] = big; b[at] = small; break;
          case 3: b[ar] = small; b[at] = small; break;
          case 4: b[ar] = edge; b[at] = r.chance(1, 3) ? 0 : edge; break;
          default: break;
        }
      };
      run(t, r, x, Config{lm, v[0], v[1], 2, 16384, r.pick(IVec{45, 64}), r.pick(IVec{45, 64}), r.chance(1, 2)});
    }
  } else {
    for (int i = 0; i < a.i("iters", 300); i++) {
      Ctx x(t, r);
      x.exact = false;
      const int nt = r.in(1, 8);
      const bool mostly = r.chance(1, 2);  // mostly accepted
      for (int j = 0; j < nt; j++) x.outcomes.push_back(mostly && r.chance(3, 4) ? r.in(0, 2) : r.in(0, 6));
      const bool dim = r.chance(1, 4);
      const long div = r.pick(IVec{1, 1, 8, 64});
      x.system = [&](int, IVec& H, IVec& b) {
        Eigen::Matrix<long, 3, 6> A;
        for (int p = 0; p < 3; p++) for (int q = 0; q < 6; q++) A(p, q) = dim && p ? 0 : r.in(-1, 1);
        const Eigen::Matrix<long, 6, 6> M = A.transpose() * A;
        for (int p = 0; p < 6; p++) { b[p] = r.in(-300, 300) / div; for (int q = 0; q < 6; q++) H[p * 6 + q] = M(p, q); }
      };
      const long f = r.pick(IVec{2, 4});
      run(t, r, x, Config{lm, r.in(0, f == 4 ? 2 : 4), r.in(0, 3), f, 1024 * r.pick(IVec{4, 8, 16}), r.pick(IVec{0, 40, 300, 2000, 20000}), r.pick(IVec{0, 40, 300, 2000, 20000}), r.chance(1, 2)});
    }
  }
  Ev(t, "end");
  return 0;
}
