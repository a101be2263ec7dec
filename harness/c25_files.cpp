// Point files: every file of the generated list is written into the scratch directory dir= and read back.
#include "trace.hpp"
#include <small_gicp/benchmark/read_points.hpp>
using namespace vt;
static long value(int v, long i, long j) { return v == 0 ? 16 * i + j + 1 : v == 1 ? 1000 * j - 37 * i : (j == 3 ? 5 : -(i * i + j)); }
int main(int argc, char** argv) {
  Args a(argc, argv);
  Trace t(a.s("out"));
  std::cerr.setstate(std::ios::failbit);   // refusals are announced on stderr
  const std::string dir = a.s("dir"), only = a.s("only");
  std::ifstream ifs(a.s("cases"));
  const long shard = a.i("shard"), nshards = a.i("nshards", 1);
  std::string kind;
  long n, s, v, line = 0;
  while (ifs >> kind >> n >> s >> v) {
    if (line++ % nshards != shard) continue;
    const std::string file = dir + "/f" + std::to_string(shard) + (kind == "pts" ? ".bin" : ".ply");
    std::remove(file.c_str());
    Ev(t, "write").str("kind", kind).i("n", n).i("s", s).i("v", v);
    std::vector<Eigen::Vector4f> got;
    if (kind == "pts") {
      std::vector<Eigen::Vector4f> p(n);
      for (long i = 1; i <= n; i++) p[i - 1] = Eigen::Vector4f(value(v, i, 0), value(v, i, 1), value(v, i, 2), value(v, i, 3));
      small_gicp::write_points(file, p);
      got = small_gicp::read_points(file);
    } else {
      if (kind != "missing") {
        std::ofstream o(file, std::ios::binary);
        o << "ply\nformat binary_little_endian 1.0\n";
        if (kind == "comment") o << "comment made for a test\nobj_info element of property end_header\n";
        if (kind == "face") o << "element face 0\n";
        o << "element vertex " << n << "\n";
        const char* names[] = {"x", "y", "z", "intensity", "nx", "ny", "nz", "scalar", "p8", "p9", "p10", "p11", "p12"};
        for (int j = 0; j < s; j++) {
          std::string name = names[j];
          if (kind == "upper" && j < 3) name[0] = std::toupper(name[0]);
          const bool odd = j == (n + v) % s;
          o << "property " << (kind == "double" && odd ? "double" : kind == "int" && odd ? "int" : kind == "nofloat" && odd ? "uchar" : "float") << " " << name << "\n";
          if (kind == "comment" && j == 1) o << "comment between\n";
        }
        o << "end_header\n";
        for (long i = 1; i <= n; i++)
          for (int j = 0; j < s; j++) {
            const float x = value(v, i, j);
            o.write(reinterpret_cast<const char*>(&x), sizeof(x));
          }
      }
      got = small_gicp::read_ply(file);
    }
    std::vector<IVec> rows;
    for (const auto& p : got) rows.push_back({lat(p[0]), lat(p[1]), lat(p[2]), lat(p[3])});
    Ev(t, "read").vv("points", rows);
    std::remove(file.c_str());
  }
  Ev(t, "end");
  return 0;
}
