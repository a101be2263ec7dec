import lib
from lib import NCPU
def main(c):
    src = ["c21_degenerate.cpp", f"{lib.REPO}/src/small_gicp/registration/registration_helper.cpp"]
    fl = ["-D_GLIBCXX_ASSERTIONS", "-fsanitize=undefined", "-fno-sanitize-recover=undefined"]
    exes = c.build_many([(("c21_degenerate", src), dict(out=f"c21_p{p}", flags=fl + [f"-DPART={p}"], libs=["-ltbb"], asan=True)) for p in (0, 1)])
    c.model_check("MCDegen", "Degen_guarded.cfg")
    for m in ("first", "all", "blind"):
        c.model_check("MCDegen", f"Degen_{m}.cfg", expect_violation="InBounds is violated")
    cases = c.cases(c.generate("GenDegen", c.q("GenDegen_q.cfg", "GenDegen_t.cfg")), "o", "n", "s", "k", "b")
    n = c.q(NCPU, 4 * NCPU)
    jobs = [(f"gen{p}_{i}", [exes[p], "out={out}", f"cases={cases}", f"shard={i}", f"nshards={n}", f"seed={1000 * c.seed + i}"], None) for p in (1, 0) for i in range(n)]
    c.trace_check("DegenTrace", jobs, timeout=800)
    c.assumptions += ["alignments without any pair in reach keep the pose exactly; with degenerate pairs only finiteness and the number of inliers are required"]
