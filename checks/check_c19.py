from lib import NCPU
def main(c):
    real, asan, (tsan, kinds) = c.parallel(
        lambda: c.build("c19_features", libs=["-ltbb"], opt="-O2"),
        lambda: c.build("c19_features", libs=["-ltbb"], out="c19_asan", asan=True, flags=["-D_GLIBCXX_ASSERTIONS"]),
        lambda: c.build_tsan("c19_features"))
    c.model_check("MCFeature", c.q("Feature_rule.cfg", "Feature_rulet.cfg"))
    c.model_check("MCFeature", "Feature_par.cfg")
    c.model_check("MCFeature", "Feature_middle.cfg", expect_violation="RuleIsRight is violated")
    for m in ("shared", "late"):
        c.model_check("MCFeature", f"Feature_{m}.cfg", expect_violation="Filled is violated")
    cases = c.cases(c.generate("GenClouds", c.q("GenClouds_5x6.cfg", "GenClouds_6x6.cfg")), "pts")
    n = c.q(4, 2 * NCPU)
    m = c.q(3, 1)   # quick: a third of the clouds
    jobs = [(f"gen{i}", [asan, "out={out}", "mode=gen", f"cases={cases}", f"shard={i}", f"nshards={n * m}", f"seed={c.seed + i}"], None) for i in range(n)]
    for i in range(c.q(10, 80)):
        jobs.append((f"rand{i}", [[real, asan][i % 2], "out={out}", f"seed={1000 * c.seed + i}", f"iters={c.q(40, 150)}", f"jitter={[0, 3000, 20000][i % 3]}"], None))
    for i in range(c.q(4, 32)):
        jobs.append((f"large{i}", [real, "out={out}", "mode=large", f"seed={3000 * c.seed + i}", f"iters={c.q(15, 60)}", "maxn=1500"], None))
    jobs.append(("huge", [real, "out={out}", "mode=large", f"seed={c.seed}", f"iters={c.q(1, 6)}", "minn=66000", "maxn=80000"], None))   # more than 65536 points
    for i in range(c.q(6, 48)):
        b = kinds[i % len(kinds)]
        jobs.append((f"race_{b}{i}", [tsan, "out={out}", f"mode={['large', 'rand'][i % 2]}", f"seed={7000 * c.seed + i}", f"backend={b}", f"iters={c.q(8, 30)}", "maxn=120"],
                     dict(VT_SCHED_SEED=str(c.seed * 100 + i))))
    c.trace_check("FeatureTrace", jobs)
    c.assumptions += ["exact directions are decided for clouds of up to 24 lattice points to 1/4096; larger clouds are compared between backends"]
