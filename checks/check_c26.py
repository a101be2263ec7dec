from lib import NCPU
def main(c):
    exes = c.build_many([(("c26_object",), dict(out=f"c26_{f}", flags=[f"-DKIND={f}", "-D_GLIBCXX_ASSERTIONS"], asan=f in (0, 4), libs=["-ltbb"])) for f in range(5)])
    c.model_check("MCReg", "Reg_ok.cfg")
    for m, inv in (("keep", "OnlySettingsDecide"), ("static", "OnlySettingsDecide"), ("write", "Untouched"), ("alias", "Untouched")):
        c.model_check("MCReg", f"Reg_{m}.cfg", expect_violation=f"{inv} is violated")
    cases = c.cases(c.generate("GenHist", c.q("GenHist_reg.cfg", "GenHist_regt.cfg")), "h", "c", "cap", "ops")
    jobs = []
    for f, exe in enumerate(exes):
        n = c.q(3, 10)
        jobs += [(f"gen{f}_{i}", [exe, "out={out}", "mode=gen", f"cases={cases}", f"shard={i}", f"nshards={n * c.q(3, 1)}", f"seed={c.seed + i}"], None) for i in range(n)]
        jobs += [(f"rand{f}_{i}", [exe, "out={out}", f"seed={1000 * c.seed + 10 * i + f}", f"iters={c.q(40, 150)}"], None) for i in range(c.q(2, 12))]
    c.trace_check("RegTrace", jobs)
    c.assumptions += ["with several threads sums differ by rounding, and those runs are limited to two iterations"]
