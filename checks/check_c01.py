from lib import NCPU
def main(c):
    exe = c.build("c01_kdtree", asan=True, flags=["-D_GLIBCXX_ASSERTIONS"])
    for cfg in c.q(["n1", "n3"], ["n1", "n3", "n5"]):
        c.model_check("MCKdTree", f"MCKdTree_{cfg}.cfg")
    c.model_check("MCKdTree", "MCKdTree_cap.cfg", expect_violation="WithinCapacity is violated")
    cases = c.cases(c.generate("GenClouds", c.q("GenClouds_4x6.cfg", "GenClouds_5x6.cfg")), "pts")
    jobs = []
    n = c.q(NCPU, 4 * NCPU)
    for i in range(n):
        jobs.append((f"gen{i}", [exe, "out={out}", "mode=gen", f"cases={cases}", f"shard={i}", f"nshards={n}", f"seed={c.seed + i}"], None))
    for i in range(c.q(NCPU, 10 * NCPU)):
        jobs.append((f"rand{i}", [exe, "out={out}", "mode=rand", f"seed={1000 * c.seed + i}", f"iters={c.q(40, 60)}",
                                  f"maxn={[300, 1200, 3000][i % 3]}", "queries=24"], None))
    for i in range(c.q(1, 6)):   # more than 65536 points and nodes
        jobs.append((f"huge{i}", [exe, "out={out}", "mode=rand", f"seed={4000 * c.seed + i}", "iters=1", "minn=66000", "maxn=80000", "queries=20"], None))
    c.trace_check("KnnTrace", jobs)
    c.assumptions += ["coordinates are integers up to 10000 times a power-of-two scale plus an exactly representable offset, so that squared distances are exact",
                      "leaf sizes and scan counts are at least 1"]
