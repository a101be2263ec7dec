from lib import NCPU
def main(c):
    inc = ["-isystem", "/usr/include/pcl-1.14"]
    libs = ["-lpcl_registration", "-lpcl_search", "-lpcl_kdtree", "-lpcl_common", "-lpcl_octree", "-lpcl_filters", "-lpcl_sample_consensus", "-llz4"]
    exe = c.build("c16_pcl", flags=inc + ["-D_GLIBCXX_ASSERTIONS"], libs=libs)
    c.model_check("MCPcl", c.q("Pcl_ok.cfg", "Pcl_t.cfg"))
    for m in ("swap", "res", "covs"):
        c.model_check("MCPcl", f"Pcl_{m}.cfg", expect_violation="NothingLeaks is violated")
    cases = c.cases(c.generate("GenHist", c.q("GenHist_pcl.cfg", "GenHist_pclt.cfg")), "h", "c", "cap", "ops")
    n = c.q(4, 4 * NCPU)
    jobs = [(f"gen{i}", [exe, "out={out}", "mode=gen", f"cases={cases}", f"shard={i}", f"nshards={n}", f"seed={c.seed + i}"], None) for i in range(n)]
    jobs += [(f"rand{i}", [exe, "out={out}", f"seed={1000 * c.seed + i}", f"iters={c.q(40, 150)}"], None) for i in range(c.q(NCPU, 8 * NCPU))]
    c.trace_check("PclTrace", jobs, timeout=400)
    c.assumptions += ["clouds keep their content while they are set; covariances stay estimated with the neighbour count of the alignment that needed them",
                      "results are compared to 1e-4"]
