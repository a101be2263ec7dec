from lib import NCPU
def main(c):
    exe = c.build("c20_projective", asan=True, flags=["-D_GLIBCXX_ASSERTIONS"])
    c.model_check("MCProj", c.q("Proj_ok.cfg", "Proj_t.cfg"))
    c.model_check("MCProj", "Proj_twice.cfg", expect_violation="Once is violated")
    cases = c.cases(c.generate("GenProj", c.q("GenProj_q.cfg", "GenProj_t.cfg")), "w", "h", "u", "v", "wh", "wv", "m")
    n = c.q(2, 2 * NCPU)
    jobs = [(f"gen{i}", [exe, "out={out}", "mode=gen", f"cases={cases}", f"shard={i}", f"nshards={n}", f"seed={c.seed + i}"], None) for i in range(n)]
    jobs += [(f"rand{i}", [exe, "out={out}", f"seed={1000 * c.seed + i}", f"iters={c.q(60, 250)}"], None) for i in range(c.q(14, 100))]
    c.trace_check("ProjTrace", jobs)
    c.assumptions += ["points and queries keep 1e-6 away from the borders between image cells and queries project inside the image; where several points project to one cell any one of them may be recorded"]
