from lib import NCPU
def main(c):
    exes = c.build_many([(("c22_align",), dict(out=f"c22_{f}", flags=[f"-DFACTOR={f}", "-D_GLIBCXX_ASSERTIONS"], libs=["-ltbb"])) for f in range(6)])
    c.model_check("MCAlign", c.q("Align_ok.cfg", "Align_t.cfg"))
    c.model_check("MCAlign", "Align_wide.cfg", expect_violation="Recovered is violated")
    jobs = [(f"f{f}_{i}", [exe, "out={out}", f"seed={1000 * c.seed + 10 * i + f}", f"iters={c.q(25, 120)}"], None) for i in range(c.q(2, 10)) for f, exe in enumerate(exes)]
    c.trace_check("AlignTrace", jobs, timeout=600)
    c.assumptions += ["recovery is required from displacements below a quarter of the point spacing, where the true correspondences are provably the nearest ones"]
