from lib import NCPU
from check_c07 import histories
def main(c):
    c.exe = c.build("c07_voxelmap", asan=True, flags=["-D_GLIBCXX_ASSERTIONS"])
    c.model_check("MCVoxelMap", "VoxelMap_a.cfg")
    c.model_check("MCVoxelMap", "VoxelMap_forget.cfg", expect_violation="GaussExact is violated")
    jobs = histories(c, "gauss", c.q("GenHist_g.cfg", "GenHist_t.cfg"))
    for i in range(c.q(NCPU, 8 * NCPU)):
        jobs.append((f"rand{i}", [c.exe, "out={out}", "kind=gauss", f"seed={1000 * c.seed + i}", f"iters={c.q(60, 120)}", f"len={[8, 25, 120][i % 3]}"], None))
    jobs.append(("big", [c.exe, "out={out}", "kind=gauss", f"seed={c.seed}", "big=1", "iters=0"], None))
    jobs.append(("long", [c.exe, "out={out}", "kind=gauss", f"seed={c.seed}", f"long={c.q(6, 40)}", "iters=0"], None))
    for i in range(c.q(2, NCPU)):
        jobs.append((f"search{i}", [c.exe, "out={out}", "what=search", "kind=gauss", f"seed={3000 * c.seed + i}", "iters=60", "len=25"], None))
    c.trace_check("VoxelMapTrace", [j for j in jobs if not j[0].startswith("search")])
    c.trace_check("VoxelSearchTrace", [j for j in jobs if j[0].startswith("search")])
    c.assumptions += ["means and covariances are compared to 1/256 of a lattice unit (they are sums of integers divided by a count)"]
