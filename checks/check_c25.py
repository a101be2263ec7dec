import os
import lib
from lib import NCPU
def main(c):
    exe = c.build("c25_files", flags=["-D_GLIBCXX_ASSERTIONS"], asan=True)
    c.model_check("MCPly", "Ply_ok.cfg")
    for m in ("four", "stride"):
        c.model_check("MCPly", f"Ply_{m}.cfg", expect_violation="Exact is violated")
    c.model_check("MCPly", "Ply_recorded.cfg")
    cases = c.cases(c.generate("GenPly", c.q("GenPly_q.cfg", "GenPly_t.cfg")), "kind", "n", "s", "v")
    scratch = os.path.join(c.work, "files"); os.mkdir(scratch)
    n = c.q(NCPU, 2 * NCPU)
    c.trace_check("PlyTrace", [(f"files_{i}", [exe, "out={out}", f"cases={cases}", f"dir={scratch}", f"shard={i}", f"nshards={n}"], None) for i in range(n)], timeout=600)
    # the recorded finding, on one specific file: three vertices with six float properties
    one = os.path.join(c.work, "wide.txt")
    open(one, "w").write("ply 3 6 0\n")
    c.trace_check("PlyTrace", [("wide_ply_n3_s6", [exe, "out={out}", f"cases={one}", f"dir={scratch}"], None)], cfg="PlyTrace_strict.cfg")
