from lib import NCPU
def main(c):
    exe = c.build("c15_dof", asan=True, flags=["-D_GLIBCXX_ASSERTIONS"])
    c.model_check("MCDof", "Dof_ok.cfg")
    for m in ("soft", "overwrite"):
        c.model_check("MCDof", f"Dof_{m}.cfg", expect_violation="Restricted is violated")
    cases = c.cases(c.generate("GenHist", c.q("GenHist_d.cfg", "GenHist_dt.cfg")), "h", "c", "cap", "ops")
    n = c.q(2, 4 * NCPU)
    jobs = [(f"gen{i}", [exe, "out={out}", "mode=gen", f"cases={cases}", f"shard={i}", f"nshards={n}", f"seed={c.seed + i}"], None) for i in range(n)]
    jobs += [(f"rand{i}", [exe, "out={out}", f"seed={1000 * c.seed + i}", f"iters={c.q(200, 1500)}"], None) for i in range(c.q(NCPU, 8 * NCPU))]
    jobs += [(f"scene{i}", [exe, "out={out}", "mode=scene", f"seed={c.seed + i}", f"iters={c.q(22, 60)}"], None) for i in range(c.q(NCPU, 8 * NCPU))]
    c.trace_check("DofTrace", jobs)
    c.assumptions += ["the stiffness is the default or at least 1e8; components are compared to 4/65536 per step and 1/1000 per alignment"]
