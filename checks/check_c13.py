from lib import NCPU
def main(c):
    exe = c.build("c13_factors", asan=True, flags=["-D_GLIBCXX_ASSERTIONS"])
    c.model_check("MCFactor", "Factor_ok.cfg")
    c.model_check("MCFactor", "Factor_stale.cfg", expect_violation="Paired is violated")
    recs = [r for r in c.generate("GenHist", c.q("GenHist_p.cfg", "GenHist_pt.cfg")) if not (r["c"] == 1 and r["h"] >= 5)]
    cases = c.cases(recs, "h", "c", "cap", "ops")
    n = c.q(NCPU, 8 * NCPU)
    jobs = [(f"gen{i}", [exe, "out={out}", "mode=gen", f"cases={cases}", f"shard={i}", f"nshards={n}"], None) for i in range(n)]
    jobs += [(f"rand{i}", [exe, "out={out}", "mode=pair", f"seed={1000 * c.seed + i}", f"iters={c.q(700, 3000)}"], None) for i in range(c.q(NCPU, 8 * NCPU))]
    c.trace_check("PairTrace", jobs)
    c.assumptions += ["coordinates and poses are integral, so that distances and errors are exact; ties may be broken in any way"]
