import glob, json, os, subprocess, sysconfig, sys
import lib
from lib import NCPU, CheckError
def main(c):
    inc = ["-I" + sysconfig.get_paths()["include"]]
    py = sorted(glob.glob(f"{lib.REPO}/src/python/*.cpp"))
    reg = sorted(s for s in glob.glob(f"{lib.REPO}/src/small_gicp/registration/*.cpp"))
    mod = os.path.join(c.work, "mod"); os.mkdir(mod)
    fl = ["-fPIC", "-fvisibility=hidden"] + inc
    specs = [(("py_" + os.path.basename(s), [s]), dict(out=f"py{i}.o", flags=["-c"] + fl)) for i, s in enumerate(py + reg)]
    specs.append((("c18_ref",), dict(out="libref.so", flags=["-shared", "-fPIC", "-fvisibility=hidden", "-fno-gnu-unique"])))
    def models():
        c.model_check("MCPy", "Py_ok.cfg", workers=2)
        for m in ("swap", "contig", "skip", "late"):
            c.model_check("MCPy", f"Py_{m}.cfg", expect_violation="AsPlanned is violated", workers=2)
        return c.generate("GenPy", c.q("GenPy_q.cfg", "GenPy_t.cfg"))
    outs, recs = c.parallel(lambda: c.build_many(sorted(specs, key=lambda s: "align" not in s[0][0] and "ref" not in s[0][0])), models)
    ref = [o for o in outs if o.endswith("libref.so")][0]
    so = os.path.join(mod, "small_gicp" + sysconfig.get_config_var("EXT_SUFFIX"))
    p = subprocess.run(["g++", "-shared", "-fopenmp", "-o", so] + [o for o in outs if o.endswith(".o")], capture_output=True, text=True)
    if p.returncode:
        sys.stderr.write(p.stderr[:2000])
        raise CheckError("cannot link the Python module")
    cases = os.path.join(c.work, "py_cases.ndjson")
    with open(cases, "w") as f:
        for r in recs:
            f.write(json.dumps(r) + "\n")
    c.log(f"{len(recs)} sessions generated by TLC")
    c.cov["tlc_generated_cases"] = len(recs)
    n = c.q(NCPU, 4 * NCPU)
    drv = os.path.join(lib.HARNESS, "c18_python.py")
    jobs = [(f"py_{i}", [sys.executable, "-B", drv, f"mod={mod}", f"ref={ref}", "out={out}", f"cases={cases}", f"shard={i}", f"nshards={n}", f"seed={c.seed}"], {"OPENBLAS_NUM_THREADS": "1"}) for i in range(n)]
    c.trace_check("PyTrace", jobs, timeout=800)
    c.assumptions += ["the arrays hold values that float32 and (scaled) int64 represent exactly", "parallel sampling is compared on at most 1024 points, where it is exact"]
