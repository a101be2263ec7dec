from lib import NCPU
def main(c):
    exe = c.build("c03_sampling", asan=True, flags=["-D_GLIBCXX_ASSERTIONS"], libs=["-ltbb"])
    for m in c.q(["n4b4"], ["n4b4", "n5b5"]):
        c.model_check("VoxelGrid", f"VoxelGrid_{m}.cfg")
    c.model_check("VoxelGrid", "VoxelGrid_invalid.cfg", expect_violation="EveryOutputInOneVoxel is violated")
    cases = c.cases(c.generate("GenClouds", c.q("GenClouds_vox4.cfg", "GenClouds_vox5.cfg")), "pts")
    jobs = []
    n = c.q(2, 8)
    for i in range(n):
        jobs.append((f"gen{i}", [exe, "out={out}", "mode=gen", f"cases={cases}", f"shard={i}", f"nshards={n}", f"seed={c.seed + i}"], None))
    for i in range(c.q(8, 80)):
        jobs.append((f"rand{i}", [exe, "out={out}", f"seed={1000 * c.seed + i}", f"iters={c.q(60, 120)}", f"maxn={[300, 1500, 4500][i % 3]}"], None))
    jobs.append(("huge", [exe, "out={out}", f"seed={c.seed}", f"iters={c.q(1, 4)}", "minn=70000", "maxn=90000"], None))   # more than 65536 points
    c.trace_check("SamplingTrace", jobs)
    c.assumptions += ["points lie on a sub-lattice of 1/1024 voxel; for leaf sizes that are not powers of two they keep away from voxel faces"]
