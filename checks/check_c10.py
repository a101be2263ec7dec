from lib import NCPU
def optimizer(c, opt, cfg, trials, models):
    exe = c.build("c10_optimizer", asan=True, flags=["-D_GLIBCXX_ASSERTIONS"])
    for m in models:
        c.model_check("MCOptimizer", f"Optimizer_{m}.cfg")
    cases = c.cases(c.generate("GenScript", cfg), "lim", "out", "kind")
    n = c.q(NCPU, 4 * NCPU)
    jobs = [(f"gen{i}", [exe, "out={out}", "mode=gen", f"opt={opt}", f"trials={trials}", f"cases={cases}", f"shard={i}", f"nshards={n}", f"seed={c.seed + i}"], None) for i in range(n)]
    jobs += [(f"rand{i}", [exe, "out={out}", f"opt={opt}", f"seed={1000 * c.seed + i}", f"iters={c.q(1000, 4000)}"], None) for i in range(c.q(NCPU, 8 * NCPU))]
    c.trace_check("OptTrace", jobs)
    c.assumptions += ["steps are compared with the solution of the damped system to 2^-14 (exactly for generated scripts)"]
def main(c):
    c.model_check("MCOptimizer", "Optimizer_forget.cfg", expect_violation="NeverWorse is violated")
    optimizer(c, "lm", c.q("GenScript_lmq.cfg", "GenScript_lmt.cfg"), c.q(3, 4), c.q(["lm"], ["lm", "lmt"]))
