from lib import NCPU
def main(c):
    exe = c.build("c06_random", asan=True, flags=["-D_GLIBCXX_ASSERTIONS"])
    c.model_check("Sampling", "Sampling_ok.cfg")
    c.model_check("Sampling", "Sampling_replace.cfg", expect_violation="Distinct is violated")
    c.trace_check("RandomTrace", [(f"rand{i}", [exe, "out={out}", f"seed={1000 * c.seed + i}", f"iters={c.q(60, 300)}", f"maxn={[700, 1500][i % 2]}"], None)
                                  for i in range(c.q(4, 4 * NCPU))] +
                  [(f"huge{i}", [exe, "out={out}", f"seed={2000 * c.seed + i}", "iters=0", "huge=1"], None) for i in range(c.q(1, 4))])
