from lib import NCPU
def main(c):
    exe = c.build("c13_factors", asan=True, flags=["-D_GLIBCXX_ASSERTIONS"])
    c.model_check("MCSystem", c.q("System_q.cfg", "System_t.cfg"))
    c.model_check("MCSystem", "System_twice.cfg", expect_violation="GradientIsExact is violated")
    jobs = [(f"sys{i}", [exe, "out={out}", "mode=sys", f"seed={1000 * c.seed + i}", f"iters={c.q(3000, 12000)}"], None) for i in range(c.q(NCPU, 8 * NCPU))]
    jobs += [(f"rob{i}", [exe, "out={out}", "mode=rob", f"seed={1000 * c.seed + i}", f"iters={c.q(60, 250)}"], None) for i in range(c.q(NCPU, 8 * NCPU))]
    c.trace_check("SystemTrace", jobs)
    c.assumptions += ["derivatives are taken exactly from finitely many evaluations of the factor's own error (quadratic in translations, trigonometric in rotations); values are compared to 1/4096"]
