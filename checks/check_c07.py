from lib import NCPU
def histories(c, kind, cfg):
    exe = c.exe
    cases = c.cases(c.generate("GenHist", cfg), "h", "c", "cap", "ops")
    n = c.q(NCPU, 4 * NCPU)
    return [(f"gen{i}", [exe, "out={out}", "mode=gen", f"kind={kind}", f"cases={cases}", f"shard={i}", f"nshards={n}", f"seed={c.seed + i}"], None) for i in range(n)]
def main(c):
    c.exe = c.build("c07_voxelmap", asan=True, flags=["-D_GLIBCXX_ASSERTIONS"])
    for m in ("a", "b", "c"):
        c.model_check("MCVoxelMap", f"VoxelMap_{m}.cfg")
    c.model_check("MCVoxelMap", "VoxelMap_stale.cfg", expect_violation="IndexExact is violated")
    jobs = histories(c, "flat", c.q("GenHist_q.cfg", "GenHist_t.cfg"))
    for i in range(c.q(NCPU, 8 * NCPU)):
        jobs.append((f"rand{i}", [c.exe, "out={out}", "kind=flat", f"seed={1000 * c.seed + i}", f"iters={c.q(60, 120)}", f"len={[8, 25, 120][i % 3]}"], None))
    for i in range(c.q(2, 8)):
        jobs.append((f"long{i}", [c.exe, "out={out}", "kind=flat", f"seed={5000 * c.seed + i}", f"long={c.q(4, 20)}", "iters=0"], None))
    c.trace_check("VoxelMapTrace", jobs)
    c.assumptions += ["poses are cube rotations with lattice translations, so that transformed points and attributes are exact",
                      "points lie on cell borders only where the cell size is a power of two"]
