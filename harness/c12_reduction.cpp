// Reductions over mock factors with integer-coded systems, logged for ReductionTrace.tla.
#include "cases.hpp"
#include "jitter_cloud.hpp"
#include <small_gicp/points/point_cloud.hpp>
#include <small_gicp/registration/registration.hpp>
#include <small_gicp/registration/reduction_omp.hpp>
#include <omp.h>
#ifndef NO_TBB
#include <small_gicp/registration/reduction_tbb.hpp>
#endif
using namespace small_gicp;
using namespace vt;
using Mat6 = Eigen::Matrix<double, 6, 6>;
using Vec6 = Eigen::Matrix<double, 6, 1>;

struct Tagged { long tag; };
struct Rej {
  long tag;
  template <typename A, typename B> bool operator()(const A&, const B&, const Eigen::Isometry3d&, size_t, size_t, double) const { return false; }
};
static int jitter = 0;

// Everything a factor touches is its own memory, so that ThreadSanitizer sees two threads evaluating one factor.
struct Mock {
  bool accept = false;
  long vh = 0, vb = 0, ve = 0, w = 0;
  // seen
  long calls = 0, errs = 0, src = -1;
  bool ok = true;
  Eigen::Isometry3d pose;
  long tag = 0;
  bool same(const Tagged& t, const Tagged& s, const Eigen::Isometry3d& T) const { return t.tag == tag + 1 && s.tag == tag + 2 && T.matrix() == pose.matrix(); }
  static void delay(size_t i) {
    if (!jitter) return;
    volatile unsigned x = 0;
    for (size_t j = 0, n = (i * 2654435761u) % (unsigned)jitter; j < n; j++) x += j;
  }
  template <typename Rejector>
  bool linearize(const Tagged& t, const Tagged& s, const Tagged& tree, const Eigen::Isometry3d& T, size_t i, const Rejector& rej, Mat6* H, Vec6* b, double* e) {
    calls++;
    src = i > 2000000000 ? -2 : (long)i;
    ok = ok && same(t, s, T) && tree.tag == tag + 3 && rej.tag == tag + 4;
    delay(src);
    if (!accept) {
      if (vh % 3 == 0) { H->setConstant(std::nan("")); b->setConstant(std::nan("")); *e = std::nan(""); }  // a rejecting factor may leave anything behind
      if (vh % 3 == 1) { H->setConstant(1e6); b->setConstant(1e6); *e = 1e6; }
      return false;
    }
    for (int r = 0; r < 6; r++) {
      for (int c = 0; c < 6; c++) (*H)(r, c) = vh * (1 + 6 * std::min(r, c) + std::max(r, c));
      (*b)[r] = vb * (1 + r);
    }
    *e = ve;
    return true;
  }
  double error(const Tagged& t, const Tagged& s, const Eigen::Isometry3d& T) {
    errs++;
    ok = ok && same(t, s, T);
    delay(src);
    return w;
  }
  bool inlier() const { return accept; }
};

static Eigen::Isometry3d random_pose(Rng& r) {
  Eigen::Isometry3d T = Eigen::Isometry3d::Identity();
  T.translation() = Eigen::Vector3d(r.in(-9, 9), r.in(-9, 9), r.in(-9, 9));
  return T;
}

// One evaluation of the system and then of the errors with the given reduction.
template <typename Reduction>
static void evaluate(Trace& t, Rng& r, Reduction& red, std::vector<Mock>& fs, const char* kind, int threads, const IVec* accept) {
  const long tag = r.in(0, 1000000), n = fs.size();
  const Tagged target{tag + 1}, source{tag + 2}, tree{tag + 3};
  const Rej rej{tag + 4};
  const int dens = r.pick(std::vector<int>{0, 1, 5, 9, 10});
  Eigen::Isometry3d T = random_pose(r);
  IVec acc, vh, vb, ve, w, calls, src;
  const bool equal = r.chance(1, 6);  // all factors alike
  for (long i = 0; i < n; i++) {
    Mock& f = fs[i];
    f.accept = accept ? (*accept)[i] : r.in(1, 10) <= dens;
    const long hi = n > 10000 ? 100 : 9000;   // sums stay within 32 bits, the integers of TLC
    f.vh = r.in(1, hi); f.vb = r.in(-hi, hi); f.ve = r.in(0, 10 * hi); f.w = r.in(0, 10 * hi);
    if (equal) { f.vh = fs[0].vh; f.vb = fs[0].vb; f.ve = fs[0].ve; f.w = fs[0].w; }
    f.calls = f.errs = 0; f.src = -1; f.ok = true; f.tag = tag; f.pose = T;
    acc.push_back(f.accept); vh.push_back(f.vh); vb.push_back(f.vb); ve.push_back(f.ve); w.push_back(f.w);
  }
  auto [H, b, e] = red.linearize(target, source, tree, rej, T, fs);
  IVec h, bb;
  for (int i = 0; i < 6; i++) for (int j = 0; j < 6; j++) h.push_back(lat(H(i, j)));
  for (int i = 0; i < 6; i++) bb.push_back(lat(b[i]));
  bool ok = true;
  for (auto& f : fs) { calls.push_back(f.calls); src.push_back(f.src); ok = ok && f.ok && f.errs == 0; }
  Ev(t, "sys").str("kind", kind).i("threads", threads).v("acc", acc).v("vh", vh).v("vb", vb).v("ve", ve).v("calls", calls).v("src", src).v("H", h).v("b", bb).i("e", lat(e)).b("ok", ok);
  for (int rep = r.in(1, 2); rep; rep--) {
    T = random_pose(r);
    for (auto& f : fs) { f.calls = f.errs = 0; f.pose = T; }
    const double se = red.error(target, source, T, fs);
    IVec errs;
    ok = true;
    for (auto& f : fs) { errs.push_back(f.errs); ok = ok && f.ok && f.calls == 0; }
    Ev(t, "err").str("kind", kind).v("w", w).v("calls", errs).i("e", lat(se)).b("ok", ok);
  }
}

template <typename Reduction>
static void session(Trace& t, Rng& r, Reduction& red, const char* kind, int threads, int maxn, int minn = 0) {
  static const std::vector<int> sizes{0, 1, 2, 7, 8, 9, 16, 17, 63, 64, 65, 255, 256, 257, 511, 512, 513, 1024, 1025};
  std::vector<Mock> fs(minn ? r.in(minn, maxn) : std::min<int>(maxn, r.chance(1, 2) ? r.pick(sizes) : r.in(0, maxn)));
  for (int k = r.in(1, 3); k; k--) evaluate(t, r, red, fs, kind, threads, nullptr);
}

int main(int argc, char** argv) {
  Args a(argc, argv);
  Trace t(a.s("out"));
  Rng r(a.i("seed", 1));
  jitter = a.i("jitter", 0);
  const int iters = a.i("iters", 20), maxn = a.i("maxn", 600);
  const std::string which = a.s("backend", "all");
  auto each = [&](auto&& f) {
    if (which == "all") { SerialReduction s; f(s, "serial", 1); }
    if (which != "tbb") {
      const int n = r.pick(std::vector<int>{1, 2, 3, 4, 8, 16, 33, 70});
      ParallelReductionOMP o;
      if (n != 4) o.num_threads = n;
      f(o, "omp", n);
    }
#ifndef NO_TBB
    if (which != "omp") { ParallelReductionTBB o; f(o, "tbb", 0); }
#endif
  };
  if (a.s("mode") == "gen") {
    for (auto& c : read_cases(a.s("cases"))) {
      each([&](auto& red, const char* kind, int n) { std::vector<Mock> fs(c.size()); evaluate(t, r, red, fs, kind, n, &c); });
    }
  } else {
    for (int it = 0; it < iters; it++) {
      each([&](auto& red, const char* kind, int n) { session(t, r, red, kind, n, maxn, a.i("minn", 0)); });
      if (which != "tbb" && r.chance(1, 8)) {  // several callers at once, each with its own reduction, from inside a parallel region
        const uint64_t s0 = r.next();
#pragma omp parallel for num_threads(3)
        for (int c = 0; c < 3; c++) {
          Rng rr(s0 + c);
          ParallelReductionOMP o;
          o.num_threads = 1 + c;
          session(t, rr, o, "nested", 1 + c, 100);
        }
      }
    }
  }
  Ev(t, "end");
}
