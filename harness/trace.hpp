// Shared by all drivers: ndjson trace writer, seeded generator, lattice projection of doubles to integers.
#pragma once
#include <cmath>
#include <functional>
#include <array>
#include <cstdio>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <mutex>
#include <string>
#include <vector>
#include <limits>
#include <algorithm>
#include <numeric>
#include <memory>
#include <iostream>
#include <sstream>
#include <fstream>
#include <map>
#include <set>
#include <atomic>
#include <thread>
#include <Eigen/Core>
#include <Eigen/Geometry>
#include <Eigen/Eigen>

namespace vt {

// A value that no specification ever expects.
constexpr long NOT_EXACT = 2000000001;
constexpr long NOT_FINITE = 2000000002;

// v/scale as an integer, if it is one (exactly).
inline long lat(double v, double scale = 1.0) {
  if (!std::isfinite(v)) return NOT_FINITE;
  const double r = v / scale;
  if (std::abs(r) > 1.9e9) return NOT_FINITE;
  const double n = std::round(r);
  return n == r ? static_cast<long>(n) : NOT_EXACT;
}
// v*mul rounded to the nearest integer.
inline long quant(double v, double mul) {
  if (!std::isfinite(v)) return NOT_FINITE;
  const double r = std::round(v * mul);
  if (std::abs(r) > 1.9e9) return NOT_FINITE;
  return static_cast<long>(r);
}

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  long in(long lo, long hi) { return lo + static_cast<long>(next() % static_cast<uint64_t>(hi - lo + 1)); }  // inclusive
  bool chance(int num, int den) { return in(1, den) <= num; }
  template <typename T> const T& pick(const std::vector<T>& v) { return v[in(0, static_cast<long>(v.size()) - 1)]; }
};

using IVec = std::vector<long>;

// One trace event, written (and flushed) when the object dies.
class Trace {
public:
  explicit Trace(const std::string& path) : f(fopen(path.c_str(), "w")) {
    if (!f) { perror(path.c_str()); exit(3); }
  }
  ~Trace() { if (f) fclose(f); }
  void write(const std::string& s) {
    std::lock_guard<std::mutex> lk(m);
    fputs(s.c_str(), f);
    fputc('\n', f);
    fflush(f);
    count++;
  }
  size_t count = 0;
private:
  FILE* f;
  std::mutex m;
};

class Ev {
public:
  Ev(Trace& t, const char* op) : t(t) { s = "{\"op\":\""; s += op; s += "\""; }
  ~Ev() { s += "}"; t.write(s); }
  Ev(const Ev&) = delete;
  Ev& i(const char* k, long v) { key(k); s += std::to_string(v); return *this; }
  Ev& b(const char* k, bool v) { key(k); s += v ? "true" : "false"; return *this; }
  Ev& str(const char* k, const std::string& v) { key(k); s += "\"" + v + "\""; return *this; }
  Ev& v(const char* k, const IVec& x) { key(k); vec(x); return *this; }
  Ev& vv(const char* k, const std::vector<IVec>& x) {
    key(k); s += "[";
    for (size_t j = 0; j < x.size(); j++) { if (j) s += ","; vec(x[j]); }
    s += "]"; return *this;
  }
  Ev& raw(const char* k, const std::string& x) { key(k); s += x; return *this; }
private:
  void key(const char* k) { s += ",\""; s += k; s += "\":"; }
  void vec(const IVec& x) { s += "["; for (size_t j = 0; j < x.size(); j++) { if (j) s += ","; s += std::to_string(x[j]); } s += "]"; }
  Trace& t;
  std::string s;
};

struct Args {
  std::map<std::string, std::string> m;
  Args(int argc, char** argv) {
    for (int i = 1; i < argc; i++) {
      std::string a = argv[i];
      auto p = a.find('=');
      if (p == std::string::npos) m[a] = "1"; else m[a.substr(0, p)] = a.substr(p + 1);
    }
  }
  std::string s(const std::string& k, const std::string& d = "") const { auto it = m.find(k); return it == m.end() ? d : it->second; }
  long i(const std::string& k, long d = 0) const { auto it = m.find(k); return it == m.end() ? d : std::stol(it->second); }
};

inline IVec lat3(const Eigen::Vector4d& p, double scale = 1.0, const Eigen::Vector3d& off = Eigen::Vector3d::Zero()) {
  return {lat(p[0] - off[0], scale), lat(p[1] - off[1], scale), lat(p[2] - off[2], scale)};
}

// The 24 proper rotations of the cube, as integer matrices.
inline std::vector<Eigen::Matrix3d> cube_rotations() {
  std::vector<Eigen::Matrix3d> r;
  int p[3] = {0, 1, 2};
  do {
    for (int s = 0; s < 8; s++) {
      Eigen::Matrix3d m = Eigen::Matrix3d::Zero();
      for (int i = 0; i < 3; i++) m(i, p[i]) = (s >> i) & 1 ? -1 : 1;
      if (m.determinant() > 0) r.push_back(m);
    }
  } while (std::next_permutation(p, p + 3));
  return r;
}
}  // namespace vt
