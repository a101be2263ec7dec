from lib import NCPU
def main(c):
    real, asan, (tsan, kinds) = c.parallel(
        lambda: c.build("c05_sort", libs=["-ltbb"], opt="-O2"),
        lambda: c.build("c05_sort", libs=["-ltbb"], out="c05_asan", asan=True, flags=["-D_GLIBCXX_ASSERTIONS"]),
        lambda: c.build_tsan("c05_sort"))
    for m in c.q(["merge", "quick", "radix"], ["merge", "quick", "radix", "merge5", "quick5", "radix6"]):
        c.model_check("ParSort", f"ParSort_{m}.cfg")
    c.model_check("ParSort", "ParSort_nowait.cfg", expect_violation="Sorted is violated")
    c.model_check("ParSort", "ParSort_nobarrier.cfg", expect_violation="Sorted is violated")
    cases = c.cases(c.generate("GenKeys", c.q("GenKeys_5x4.cfg", "GenKeys_7x4.cfg")), "keys")
    jobs = [(f"gen_{b}", [asan, "out={out}", "mode=gen", f"backend={b}", f"cases={cases}", f"seed={c.seed}"], None) for b in ("omp", "tbb")]
    for i in range(c.q(10, 80)):
        b = ["omp", "tbb"][i % 2]
        exe = asan if i % 5 == 4 else real
        jobs.append((f"{b}{i}", [exe, "out={out}", f"seed={1000 * c.seed + i}", f"backend={b}", f"iters={c.q(60, 150)}", f"jitter={[0, 50, 1000][i % 3]}",
                                 f"maxn={[1500, 4500, 12000][i % 3]}"], None))
    for i in range(c.q(8, 64)):
        b = kinds[i % len(kinds)]
        jobs.append((f"race_{b}{i}", [tsan, "out={out}", f"seed={7000 * c.seed + i}", f"backend={b}", f"iters={c.q(12, 40)}", "maxn=4200"],
                     dict(VT_SCHED_SEED=str(c.seed * 100 + i), **([{}, {}, {}, dict(OMP_THREAD_LIMIT="3")][i % 4]))))
    for b in ("omp", "tbb"):   # more than 65536 elements
        for i in range(c.q(1, 4)):
            jobs.append((f"huge_{b}{i}", [real, "out={out}", f"seed={4000 * c.seed + i}", f"backend={b}", "iters=3", "jitter=0", "minn=66000", "maxn=100000"], None))
    for i in range(c.q(1, 4)):
        jobs.append((f"giant{i}", [real, "out={out}", f"seed={6000 * c.seed + i}", "backend=omp", "iters=2", "jitter=0", "minn=263000", "maxn=300000"], None))
    c.trace_check("SortTrace", jobs)
    c.assumptions += ["comparators are strict weak orderings and radix keys are unsigned integers"]
