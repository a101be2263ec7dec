// Cases enumerated by TLC, converted by checks/lib.py to lines of integers.
#pragma once
#include "trace.hpp"
namespace vt {
inline std::vector<IVec> read_cases(const std::string& path) {
  std::vector<IVec> r;
  std::ifstream f(path);
  if (!f) { fprintf(stderr, "cannot open cases %s\n", path.c_str()); exit(3); }
  std::string line;
  while (std::getline(f, line)) {
    std::istringstream ss(line);
    IVec v; long x;
    while (ss >> x) v.push_back(x);
    r.push_back(v);
  }
  return r;
}
// random lattice clouds with many structures: uniform, planar, collinear, clustered, duplicated, all identical
inline std::vector<IVec> random_cloud(Rng& r, int n, long ext) {
  std::vector<IVec> p(n);
  const int kind = r.in(0, 6);
  const int ax = r.in(0, 2);
  for (int i = 0; i < n; i++) {
    IVec q{r.in(-ext, ext), r.in(-ext, ext), r.in(-ext, ext)};
    if (kind == 1) q[ax] = 3;                                             // planar
    if (kind == 2) { q[(ax + 1) % 3] = 1; q[(ax + 2) % 3] = -2; }          // collinear
    if (kind == 3) for (auto& c : q) c = r.in(-2, 2);                      // many duplicates
    if (kind == 4 && i && r.chance(2, 3)) q = p[r.in(0, i - 1)];           // repeated points
    if (kind == 5) q = {5, -4, 3};                                         // identical
    if (kind == 6 && i) { q = p[r.in(0, i - 1)]; q[r.in(0, 2)] += r.in(-1, 1); for (auto& c : q) c = std::max(-ext, std::min(ext, c)); }  // random walk
    p[i] = q;
  }
  return p;
}
}  // namespace vt
