import lib
from lib import NCPU
def main(c):
    exe = c.build("c17_helper", sources=["c17_helper.cpp", f"{lib.REPO}/src/small_gicp/registration/registration_helper.cpp"], flags=["-D_GLIBCXX_ASSERTIONS"], libs=["-ldl"])
    c.model_check("MCHelper", "Helper_ok.cfg")
    c.model_check("MCHelper", "Helper_corr.cfg", expect_violation="AsPlanned is violated")
    c.model_check("MCHelper", "Helper_threads.cfg", expect_violation="TeamsAsked is violated")
    cases = c.cases(c.generate("GenHelper", c.q("GenHelper_q.cfg", "GenHelper_t.cfg")), "fn", "type", "dev")
    n = c.q(NCPU, 4 * NCPU)
    jobs = [(f"gen{i}", [exe, "out={out}", "mode=gen", f"cases={cases}", f"shard={i}", f"nshards={n}", f"seed={c.seed + i}", f"iters={c.q(20, 40)}"], None) for i in range(n)]
    jobs += [(f"rand{i}", [exe, "out={out}", f"seed={1000 * c.seed + i}", f"iters={c.q(40, 200)}"], None) for i in range(c.q(2, 4 * NCPU))]
    c.trace_check("HelperTrace", jobs, timeout=400)
    c.assumptions += ["results are compared to 1e-4, preprocessed clouds to 1e-7; clouds stay below one block of the parallel downsampling (its output for larger clouds is C04)"]
