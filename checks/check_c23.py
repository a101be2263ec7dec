import lib
def main(c):
    src = ["c23_shared.cpp", f"{lib.REPO}/src/small_gicp/registration/registration_helper.cpp"]
    real, asan, (tsan, _) = c.parallel(
        lambda: c.build("c23_shared", sources=src, libs=["-ltbb"], opt="-O2"),
        lambda: c.build("c23_shared", sources=src, libs=["-ltbb"], out="c23_asan", asan=True, flags=["-D_GLIBCXX_ASSERTIONS"]),
        lambda: c.build_tsan("c23_shared", sources=src))
    c.model_check("MCShared", c.q("Shared_local.cfg", "Shared_t.cfg"))
    for m in ("scratch", "cache"):
        c.model_check("MCShared", f"Shared_{m}.cfg", expect_violation="AsAlone is violated")
    jobs = []
    for i in range(c.q(12, 80)):
        jobs.append((f"run{i}", [asan if i % 6 == 5 else real, "out={out}", f"seed={1000 * c.seed + i}", f"iters={c.q(6, 20)}",
                                 f"maxn={[60, 150, 400][i % 3]}", f"asks={c.q(400, 1500)}"], None))
    for i in range(c.q(8, 48)):
        jobs.append((f"race{i}", [tsan, "out={out}", f"seed={7000 * c.seed + i}", f"iters={c.q(2, 6)}", "maxn=60", f"asks={c.q(120, 300)}"],
                     dict(VT_SCHED_SEED=str(c.seed * 100 + i))))
    c.trace_check("SharedTrace", jobs, timeout=600)
    c.assumptions += ["answers of the serial operations are compared bit for bit; alignments with a parallel backend up to 1e-5 in pose, relative Hessian and number of inliers"]
