from lib import NCPU
def main(c):
    exe, fast = c.parallel(lambda: c.build("c07_voxelmap", asan=True, flags=["-D_GLIBCXX_ASSERTIONS"]), lambda: c.build("c07_voxelmap", opt="-O2", out="c08_fast"))
    c.model_check("MCVoxelMap", "VoxelMap_b.cfg")
    c.model_check("MCVoxelMap", "VoxelMap_stale.cfg", expect_violation="IndexExact is violated")
    jobs = []
    for i in range(c.q(2 * NCPU, 16 * NCPU)):
        jobs.append((f"rand{i}", [exe, "out={out}", "what=search", f"kind={['flat', 'flat', 'gauss'][i % 3]}", f"seed={1000 * c.seed + i}", f"iters={c.q(60, 120)}",
                                  f"len={[8, 25, 60][i % 3]}"], None))
    for n in c.q([3000, 68000], [3000, 9000, 68000, 110000]):
        jobs.append((f"big{n}", [exe, "out={out}", "what=search", f"seed={c.seed}", f"big={n}", "iters=0"], None))
    for k in ("flat", "gauss"):
        jobs.append((f"long_{k}", [exe, "out={out}", "what=search", f"kind={k}", f"seed={c.seed}", f"long={c.q(4, 40)}", "iters=0"], None))
    jobs.append(("cell", [fast, "out={out}", "what=search", f"seed={c.seed}", "big=90000", "cell=1", "iters=0"], None))   # more than 65536 points in one cell
    c.trace_check("VoxelSearchTrace", jobs)
    c.assumptions += ["coordinates, edges and scales are chosen so that squared distances and cell membership are exact"]
