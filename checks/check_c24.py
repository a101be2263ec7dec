from lib import NCPU
def main(c):
    inc = ["-isystem", "/usr/include/pcl-1.14", "-D_GLIBCXX_ASSERTIONS"]
    exes = c.build_many([(("c24_containers",), dict(out=f"c24_p{p}", flags=inc + [f"-DPART={p}"], libs=["-ltbb"], opt="-O1")) for p in range(4)] +
                        [(("c24_containers",), dict(out="c24_hist", flags=inc + ["-DHISTORY_ONLY"], libs=["-ltbb"], asan=True))])
    hist = exes[4]
    for m in ("soa", "aos", "split", "colmajor"):
        c.model_check("MCContainer", f"Container_{m}.cfg")
    for m in ("overlap", "stale"):
        c.model_check("MCContainer", f"Container_{m}.cfg", expect_violation="ReadsBack is violated")
    cases = c.cases(c.generate("GenContainer", c.q("GenContainer_2.cfg", "GenContainer_3.cfg")), "kind", "ops")
    n = c.q(4, 4 * NCPU)
    jobs = [(f"gen{i}", [hist, "out={out}", "mode=gen", f"cases={cases}", f"shard={i}", f"nshards={n}", f"seed={c.seed + i}"], None) for i in range(n)]
    jobs += [(f"hist{i}", [hist, "out={out}", f"seed={1000 * c.seed + i}", f"iters={c.q(30, 120)}"], None) for i in range(c.q(4, 4 * NCPU))]
    for i in range(c.q(8, 96)):
        jobs.append((f"alg{i}", [exes[i % 4], "out={out}", "mode=alg", f"seed={2000 * c.seed + i}", f"iters={c.q(15, 40)}", f"maxn={[150, 400, 1200][i % 3]}"], None))
    c.trace_check("ContainerTrace", jobs, timeout=600)
    c.assumptions += ["answers of the algorithms are compared to 1e-4 (poses 1e-5)", "attributes are representable as floats where algorithms are compared"]
