// Projective searches over lattice points, logged for ProjTrace.tla.
#include "cases.hpp"
#include <small_gicp/points/point_cloud.hpp>
#include <small_gicp/ann/traits.hpp>
#include <small_gicp/ann/projective_search.hpp>
using namespace small_gicp;
using namespace vt;

// A user-defined projection: the first two coordinates are the cell.
struct Grid {
  static int W, H;
  Eigen::Vector2d operator()(const Eigen::Vector3d& p) const { return Eigen::Vector2d((p[0] + 0.5) / W, (p[1] + 0.5) / H); }
};
int Grid::W = 1;
int Grid::H = 1;

static Eigen::Vector4d real(const IVec& p, double s) { return Eigen::Vector4d(p[0] * s, p[1] * s, p[2] * s, 1.0); }

// The cell of a lattice point; false if it is too close to a border between cells.
static bool equi_cell(const IVec& p, int W, int H, long& u, long& v) {
  const long double n = std::sqrt((long double)(p[0] * p[0] + p[1] * p[1] + p[2] * p[2]));
  if (n == 0 || (p[0] == 0 && p[2] == 0)) return false;
  const long double x = (std::atan2((long double)p[0], (long double)p[2]) / (2 * M_PIl) + 0.5L) * W;
  const long double y = (-std::asin((long double)p[1] / n) / M_PIl + 0.5L) * H;
  if (std::abs(x - std::round(x)) < 1e-6L || std::abs(y - std::round(y)) < 1e-6L) return false;
  u = (long)std::floor(x);
  v = (long)std::floor(y);
  return u >= 0 && u < W && v >= 0 && v < H;
}

struct Scene {
  std::vector<IVec> pts;
  IVec cu, cv;
  int W, H;
  bool equi;
  double scale;
  size_t base = 0;   // so many points that project outside of the image come first
  long id(size_t i) const { return i < base || i - base > 2000000000ull ? -1 : static_cast<long>(i - base); }
};

template <typename S>
static void ask(Trace& t, const Scene& s, const S& search, const IVec& q, long u, long v, int wh, int wv, int k, int eps2, int front) {
  const int cap = front == 1 ? 1 : front == 2 ? 5 : front == 3 ? 10 : k;
  std::unique_ptr<size_t[]> idx(new size_t[cap]);
  std::unique_ptr<double[]> d2(new double[cap]);
  KnnSetting set;
  set.epsilon = 0.5 * eps2 * s.scale * s.scale;
  const Eigen::Vector4d p = real(q, s.scale);
  size_t n = 0;
  switch (front) {
    case 0: n = search.knn_search(p, k, idx.get(), d2.get(), set); break;
    case 1: n = search.nearest_neighbor_search(p, idx.get(), d2.get(), set); break;
    case 2: if constexpr (S::unsafe) n = search.template fixed<5>(p, idx.get(), d2.get(), set); break;
    case 3: if constexpr (S::unsafe) n = search.template fixed<10>(p, idx.get(), d2.get(), set); break;
    case 4: n = search.trait_knn(p, k, idx.get(), d2.get()); eps2 = 0; break;
  }
  IVec i, d;
  for (size_t j = 0; j < std::min<size_t>(n, cap); j++) {
    i.push_back(s.id(idx[j]));
    d.push_back(lat(d2[j], s.scale * s.scale));
  }
  if (n > static_cast<size_t>(cap)) i.push_back(-2);
  Ev(t, "knn").v("q", q).i("u", u).i("v", v).i("wh", wh).i("wv", wv).i("k", cap).i("eps2", eps2).v("idx", i).v("d2", d).i("front", front);
}

// One interface over the owning and the non-owning class.
template <typename U> struct UnsafeFront {
  static constexpr bool unsafe = true;
  U& s;
  template <typename... A> size_t knn_search(A... a) const { return s.knn_search(a...); }
  template <typename... A> size_t nearest_neighbor_search(A... a) const { return s.nearest_neighbor_search(a...); }
  template <int N> size_t fixed(const Eigen::Vector4d& p, size_t* i, double* d, const KnnSetting& g) const { return s.template knn_search<N>(p, i, d, g); }
  size_t trait_knn(const Eigen::Vector4d& p, size_t k, size_t* i, double* d) const { return k == 1 ? traits::nearest_neighbor_search(s, p, i, d) : traits::knn_search(s, p, k, i, d); }
};
template <typename U> struct SafeFront {
  static constexpr bool unsafe = false;
  const U& s;
  template <typename... A> size_t knn_search(A... a) const { return s.knn_search(a...); }
  template <typename... A> size_t nearest_neighbor_search(A... a) const { return s.nearest_neighbor_search(a...); }
  size_t trait_knn(const Eigen::Vector4d& p, size_t k, size_t* i, double* d) const { return k == 1 ? traits::nearest_neighbor_search(s, p, i, d) : traits::knn_search(s, p, k, i, d); }
};

struct Ask { IVec q; long u, v; int wh, wv, k, eps2, front; };

template <typename Proj, typename MH, typename MV>
static void scene(Trace& t, Rng& r, const Scene& s, bool safe, const std::vector<Ask>& asks) {
  PointCloud c;
  c.points.assign(s.base, Eigen::Vector4d(-50, -50, 0, 1));
  for (auto& p : s.pts) c.points.push_back(real(p, s.scale));
  Ev(t, "proj").vv("pts", s.pts).i("W", s.W).i("H", s.H).v("cu", s.cu).v("cv", s.cv).b("equi", s.equi)
    .str("mh", std::is_same_v<MH, BorderRepeat> ? "repeat" : "clamp").str("mv", std::is_same_v<MV, BorderRepeat> ? "repeat" : "clamp").b("safe", safe).i("n", s.pts.size());
  using Unsafe = UnsafeProjectiveSearch<PointCloud, Proj, MH, MV>;
  auto shared = std::make_shared<PointCloud>(c);
  std::unique_ptr<ProjectiveSearch<PointCloud, Proj, MH, MV>> owner;
  if (safe) owner.reset(new ProjectiveSearch<PointCloud, Proj, MH, MV>(s.W, s.H, shared));
  Unsafe search = safe ? Unsafe(owner->search) : Unsafe(s.W, s.H, *shared);
  auto probe = [&](const IVec& q, long u, long v) {
    const int h0 = search.search_window_h, v0 = search.search_window_v;
    search.search_window_h = search.search_window_v = 0;
    size_t i[2]; double d[2];
    const size_t n = search.knn_search(real(q, s.scale), 2, i, d);
    IVec x;
    for (size_t j = 0; j < n && j < 2; j++) x.push_back(s.id(i[j]));
    Ev(t, "cell").i("u", u).i("v", v).v("idx", x);
    search.search_window_h = h0;
    search.search_window_v = v0;
  };
  std::set<std::pair<long, long>> done;
  for (size_t i = 0; i < s.pts.size(); i++)
    if (s.cu[i] >= 0 && s.cu[i] < s.W && s.cv[i] >= 0 && s.cv[i] < s.H && done.insert({s.cu[i], s.cv[i]}).second) probe(s.pts[i], s.cu[i], s.cv[i]);
  if (!s.equi) for (int k = 0; k < 3; k++) {
    const long u = r.in(0, s.W - 1), v = r.in(0, s.H - 1);
    if (done.insert({u, v}).second) probe({u, v, 0}, u, v);
  }
  const int h0 = search.search_window_h, v0 = search.search_window_v;
  for (const auto& a : asks) {
    if (safe && a.wh < 0) {
      ask(t, s, SafeFront<std::decay_t<decltype(*owner)>>{*owner}, a.q, a.u, a.v, h0, v0, a.k, a.eps2, a.front == 2 || a.front == 3 ? 0 : a.front);
    } else {
      if (a.wh >= 0) { search.search_window_h = a.wh; search.search_window_v = a.wv; } else { search.search_window_h = h0; search.search_window_v = v0; }
      ask(t, s, UnsafeFront<Unsafe>{search}, a.q, a.u, a.v, search.search_window_h, search.search_window_v, a.k, a.eps2, a.front);
    }
  }
}

template <typename Proj>
static void modes(Trace& t, Rng& r, const Scene& s, bool safe, const std::vector<Ask>& asks, int m) {
  switch (m) {
    case 0: scene<Proj, BorderRepeat, BorderClamp>(t, r, s, safe, asks); break;
    case 1: scene<Proj, BorderClamp, BorderClamp>(t, r, s, safe, asks); break;
    case 2: scene<Proj, BorderRepeat, BorderRepeat>(t, r, s, safe, asks); break;
    default: scene<Proj, BorderClamp, BorderRepeat>(t, r, s, safe, asks); break;
  }
}

int main(int argc, char** argv) {
  Args a(argc, argv);
  Trace t(a.s("out"));
  Rng r(a.i("seed", 1));
  const std::string mode = a.s("mode", "rand");
  if (mode == "gen") {
    const auto cases = read_cases(a.s("cases"));  // w h u v wh wv m
    std::map<std::array<long, 3>, std::vector<IVec>> by;
    for (size_t c = a.i("shard"); c < cases.size(); c += a.i("nshards", 1)) by[{cases[c][0], cases[c][1], cases[c][6]}].push_back(cases[c]);
    for (auto& [key, list] : by) {
      Scene s;
      s.W = Grid::W = key[0];
      s.H = Grid::H = key[1];
      s.equi = false;
      s.scale = 1.0;
      for (int u = 0; u < s.W; u++) for (int v = 0; v < s.H; v++) for (int m = r.in(0, 2); m; m--) { s.pts.push_back({u, v, r.in(-3, 3)}); s.cu.push_back(u); s.cv.push_back(v); }
      std::vector<Ask> asks;
      for (auto& c : list) asks.push_back({{c[2], c[3], r.in(-3, 3)}, c[2], c[3], (int)c[4], (int)c[5], r.chance(1, 2) ? s.W * s.H + 1 : (int)r.in(1, 6), 0, 0});
      modes<Grid>(t, r, s, false, asks, key[2]);
    }
  } else {
    for (int it = 0; it < a.i("iters", 50); it++) {
      Scene s;
      s.equi = r.chance(1, 2);
      const int m = r.pick(IVec{0, 0, 0, 1, 2, 3});
      if (s.equi) {
        if (r.chance(1, 2)) { s.W = r.pick(IVec{4, 8}); s.H = r.pick(IVec{2, 4, 6}); }
        else { s.W = r.pick(IVec{1, 3, 5, 16, 36, 100, 512}); s.H = r.pick(IVec{1, 3, 9, 24, 64}); }
        s.scale = r.pick(std::vector<double>{1, 0.25, 1024});
      } else {
        s.W = Grid::W = r.in(1, 40);
        s.H = Grid::H = r.in(1, 20);
        s.scale = 1;
        if (r.chance(1, 12)) s.base = r.pick(IVec{33000, 66000, 140000});
      }
      const int n = r.pick(IVec{0, 1, 5, 30, 120, 300});
      const long ext = r.pick(IVec{3, 10, 50});
      for (int i = 0; i < n; i++) {
        IVec p{r.in(-ext, ext), r.in(-ext, ext), r.in(-ext, ext)};
        long u = -9, v = -9;
        if (s.equi) { if (!equi_cell(p, s.W, s.H, u, v)) continue; }
        else {
          u = r.in(-3, s.W + 1); v = r.in(-3, s.H + 1);
          if (u == -1 || v == -1) continue;   // not both inside and outside by a margin
          p[0] = u; p[1] = v;
        }
        s.pts.push_back(p); s.cu.push_back(u); s.cv.push_back(v);
      }
      std::vector<Ask> asks;
      const bool safe = r.chance(1, 3);
      for (int j = 0; j < 12; j++) {
        Ask q;
        q.q = {r.in(-ext, ext), r.in(-ext, ext), r.in(-ext, ext)};
        if (r.chance(1, 3) && !s.pts.empty()) { q.q = r.pick(s.pts); q.q[r.in(0, 2)] += r.in(-1, 1); }
        if (s.equi) { if (!equi_cell(q.q, s.W, s.H, q.u, q.v)) continue; }
        else {
          q.u = r.in(0, s.W - 1); q.v = r.in(0, s.H - 1);
          q.q[0] = q.u; q.q[1] = q.v;
        }
        const bool standard = r.chance(1, 4);
        q.wh = standard ? -1 : r.pick(IVec{0, 1, 2, 3, 5, s.W / 2, s.W - 1, s.W, s.W + 3});
        q.wv = standard ? -1 : r.pick(IVec{0, 1, 2, 5, s.H - 1, s.H, s.H + 2});
        if (standard && m >= 2) continue;
        q.k = r.pick(IVec{1, 1, 2, 5, 10, 50, 400});
        q.eps2 = r.chance(1, 5) ? r.in(1, 60) : 0;
        q.front = r.pick(IVec{0, 0, 0, 1, 2, 3, 4});
        asks.push_back(q);
      }
      if (s.equi) modes<EquirectangularProjection>(t, r, s, safe, asks, m); else modes<Grid>(t, r, s, safe, asks, m);
    }
  }
  Ev(t, "end");
}
