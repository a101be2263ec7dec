from lib import NCPU
def main(c):
    real, (tsan, kinds) = c.parallel(
        lambda: c.build("c02_ptree", libs=["-ltbb"], opt="-O2"),
        lambda: c.build_tsan("c02_ptree"))
    c.model_check("MCKdTree", "MCKdTree_n3.cfg")
    c.model_check("MCKdTree", "MCKdTree_race.cfg", expect_violation="DistinctNodes is violated")
    c.model_check("MCKdTree", "MCKdTree_join.cfg", expect_violation="Exact failed")
    if not c.quick:
        c.model_check("MCKdTree", "MCKdTree_n5.cfg")
    jobs = []
    for i in range(c.q(8, 64)):
        b = "tbb" if i % 3 == 2 else "omp"
        jobs.append((f"{b}{i}", [real, "out={out}", f"seed={1000 * c.seed + i}", f"backend={b}", f"iters={c.q(24, 80)}", f"jitter={[0, 40, 300, 2000][i % 4]}",
                                 f"maxn={[1200, 3000, 600][i % 3]}"], None))
    for i in range(c.q(8, 64)):
        b = kinds[i % len(kinds)]
        jobs.append((f"race_{b}{i}", [tsan, "out={out}", f"seed={7000 * c.seed + i}", f"backend={b}", f"iters={c.q(8, 24)}", "jitter=0", "maxn=1500"],
                     dict(VT_SCHED_SEED=str(c.seed * 100 + i), **([{}, {}, {}, dict(OMP_THREAD_LIMIT="3")][i % 4]))))
    for b in ("omp", "tbb"):   # more than 65536 points and nodes
        for i in range(c.q(1, 4)):
            jobs.append((f"huge_{b}{i}", [real, "out={out}", f"seed={4000 * c.seed + i}", f"backend={b}", "iters=1", "jitter=0", "minn=66000", "maxn=80000"], None))
    c.trace_check("KnnTrace", jobs)
    c.assumptions += ["race detection and schedule exploration run on the harness's own OpenMP runtime and TBB stand-in (same ABI and interface, std::thread based); answers are also checked on libgomp and oneTBB"]
