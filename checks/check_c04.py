from lib import NCPU
def main(c):
    real, (tsan, kinds) = c.parallel(
        lambda: c.build("c03_sampling", libs=["-ltbb"], opt="-O2"),
        lambda: c.build_tsan("c03_sampling"))
    for m in c.q(["n4b2"], ["n4b2", "n5b2"]):
        c.model_check("VoxelGrid", f"VoxelGrid_{m}.cfg")
    c.model_check("VoxelGrid", "VoxelGrid_race.cfg", expect_violation="Contract is violated")
    c.model_check("VoxelGrid", "VoxelGrid_invalid.cfg", expect_violation="EveryOutputInOneVoxel is violated")
    cases = c.cases(c.generate("GenClouds", "GenClouds_vox4.cfg"), "pts")
    jobs = []
    for b in ("omp", "tbb"):
        n = c.q(1, 4)
        for i in range(n):
            jobs.append((f"gen_{b}{i}", [real, "out={out}", "mode=gen", f"backend={b}", f"cases={cases}", f"shard={i}", f"nshards={n}", f"seed={c.seed + i}"], None))
    for i in range(c.q(8, 80)):
        b = ["omp", "tbb"][i % 2]
        jobs.append((f"{b}{i}", [real, "out={out}", f"seed={1000 * c.seed + i}", f"backend={b}", f"iters={c.q(60, 120)}", f"jitter={[0, 100, 1000][i % 3]}",
                                 f"maxn={[1500, 4500, 9000][i % 3]}"], None))
    for i in range(c.q(8, 64)):
        b = kinds[i % len(kinds)]
        jobs.append((f"race_{b}{i}", [tsan, "out={out}", f"seed={7000 * c.seed + i}", f"backend={b}", f"iters={c.q(8, 30)}", "maxn=4200"],
                     dict(VT_SCHED_SEED=str(c.seed * 100 + i), **([{}, {}, {}, dict(OMP_THREAD_LIMIT="3")][i % 4]))))
    for b in ("omp", "tbb"):   # more than 65536 points
        for i in range(c.q(1, 4)):
            jobs.append((f"huge_{b}{i}", [real, "out={out}", f"seed={4000 * c.seed + i}", f"backend={b}", "iters=2", "minn=70000", "maxn=90000"], None))
    c.trace_check("SamplingTrace", jobs)
    c.assumptions += ["race detection and schedule exploration run on the harness's own OpenMP runtime and TBB stand-in; results are also checked on libgomp and oneTBB"]
