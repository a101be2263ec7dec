from lib import NCPU
def main(c):
    real, asan, (tsan, kinds) = c.parallel(
        lambda: c.build("c12_reduction", libs=["-ltbb"], opt="-O2"),
        lambda: c.build("c12_reduction", libs=["-ltbb"], out="c12_asan", asan=True, flags=["-D_GLIBCXX_ASSERTIONS"]),
        lambda: c.build_tsan("c12_reduction"))
    for m in c.q(["omp", "tbb"], ["omp", "tbb", "omp6", "tbb7"]):
        c.model_check("Reduction", f"Reduction_{m}.cfg")
    for m in ("shared", "reset", "carry"):
        c.model_check("Reduction", f"Reduction_{m}.cfg", expect_violation="Conserved is violated")
    cases = c.cases(c.generate("GenKeys", c.q("GenKeys_bits8.cfg", "GenKeys_bits10.cfg")), "keys")
    jobs = [(f"gen{i}", [asan, "out={out}", "mode=gen", f"cases={cases}", f"seed={c.seed + i}"], None) for i in range(c.q(1, 4))]
    for i in range(c.q(10, 80)):
        exe = asan if i % 5 == 4 else real
        jobs.append((f"run{i}", [exe, "out={out}", f"seed={1000 * c.seed + i}", f"iters={c.q(40, 120)}", f"jitter={[0, 2000, 20000][i % 3]}",
                                 f"maxn={[300, 1100, 2500][i % 3]}"], None))
    for i in range(c.q(8, 64)):
        b = kinds[i % len(kinds)]
        jobs.append((f"race_{b}{i}", [tsan, "out={out}", f"seed={7000 * c.seed + i}", f"backend={b}", f"iters={c.q(30, 100)}", "maxn=300"],
                     dict(VT_SCHED_SEED=str(c.seed * 100 + i), **([{}, {}, {}, dict(OMP_THREAD_LIMIT="3")][i % 4]))))
    for i in range(c.q(1, 6)):   # more than 65536 factors
        jobs.append((f"huge{i}", [real, "out={out}", f"seed={4000 * c.seed + i}", "iters=1", "minn=66000", "maxn=80000"], None))
    c.trace_check("ReductionTrace", jobs)
    c.assumptions += ["contributions are integers, so that their sum does not depend on the order of addition"]
