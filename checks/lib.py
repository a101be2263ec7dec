"""Common machinery of the checks: build a driver from /repo, run TLC, validate traces, write evidence."""
import atexit, concurrent.futures as cf, json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = min(8, os.cpu_count() or 1)


class CheckError(Exception):
    """The machinery itself failed (neither 'held' nor 'violated')."""


class Check:
    def __init__(self, pid, tier=None, seed=None):
        self.pid = pid
        self.tier = tier or os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(seed if seed is not None else os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix=f"verif_{pid}_")
        atexit.register(shutil.rmtree, self.work, True)
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.events = 0
        self.samples = []
        self.mc = []
        self.violations = []
        self.cov = {}
        self.assumptions = []
        d = os.path.join(VERIF, "replays")
        if os.path.isdir(d):
            for f in os.listdir(d):
                if f.startswith(pid + "_"):
                    os.unlink(os.path.join(d, f))
        self.known = load_known(pid)
        self.known_hit = []
        self.sure = False   # some violation is already established

    @property
    def quick(self):
        return self.tier == "quick"

    def q(self, quick, thorough):
        return quick if self.quick else thorough

    def log(self, *a):
        print(f"[{self.pid} {time.time()-self.t0:6.1f}s]", *a, flush=True)

    # ------------------------------------------------------------------ build
    def build(self, name, sources=None, flags=(), libs=(), out=None, cxx="g++", asan=False, must=True, opt="-O1"):
        sources = sources or [name + ".cpp"]
        exe = os.path.join(self.work, out or name)
        cmd = [cxx, "-std=c++17", opt, "-g1", "-w", "-fopenmp", "-I", HARNESS, "-I", f"{REPO}/include", "-isystem", "/usr/include/eigen3"]
        if asan:
            cmd += ["-fsanitize=address", "-fno-omit-frame-pointer"]
        cmd += list(flags)
        cmd += [s if os.path.isabs(s) else os.path.join(HARNESS, s) for s in sources]
        cmd += ["-o", exe] + list(libs)
        t = time.time()
        p = subprocess.run(cmd, capture_output=True, text=True)
        if p.returncode:
            if not must:
                self.log(f"build of {name} failed (optional): {p.stderr[:400]}")
                return None
            sys.stderr.write("\n".join(l for l in p.stderr.splitlines() if "error" in l or "required from" in l)[:3000] + "\n")
            raise CheckError(f"cannot build {name}")
        self.log(f"built {os.path.basename(exe)} in {time.time()-t:.1f}s")
        return exe

    def build_tsan(self, name, sources=None, flags=(), libs=(), opt="-O1", out=None):
        """Build a driver with ThreadSanitizer on the harness's own OpenMP runtime and TBB stand-in.  If the stand-in does not
        offer what the code uses, the TBB part is left out.  Returns (exe, backends)."""
        common = dict(opt=opt, out=(out or name) + "_tsan", cxx="g++")
        src = (sources or [name + ".cpp"]) + ["gomp_shim.cpp"]
        fl = ["-fsanitize=thread", "-DVT_TSAN"] + list(flags)
        exe = self.build(name, src, flags=fl + ["-I", os.path.join(HARNESS, "tbbstub")], libs=libs, must=False, **common)
        if exe and self.own_runtime(exe):
            return exe, ["omp", "tbb"]
        exe = self.build(name, src, flags=fl + ["-DNO_TBB"], libs=libs, must=False, **common)
        if exe and self.own_runtime(exe):
            return exe, ["omp"]
        # the code uses OpenMP features that the runtime above does not offer: real runtimes, no race detection
        self.assumptions.append("race detection was not possible for this tree")
        return self.build(name, sources or [name + ".cpp"], flags=list(flags), libs=list(libs) + ["-ltbb"], **common), ["omp", "tbb"]

    def own_runtime(self, exe):
        """No part of the OpenMP runtime comes from libgomp (the two must not be mixed)."""
        left = [l.split()[-1] for l in subprocess.run(["nm", "-u", exe], capture_output=True, text=True).stdout.splitlines()]
        left = [s for s in left if s.startswith(("GOMP_", "omp_", "GOACC"))]
        if left:
            self.log(f"{os.path.basename(exe)}: not offered by the harness's OpenMP runtime: {left}")
        return not left

    def parallel(self, *fs):
        with cf.ThreadPoolExecutor(len(fs)) as ex:
            futs = [ex.submit(f) for f in fs]
            return [f.result() for f in futs]

    def build_many(self, specs):
        """specs: list of (args, kwargs) of build; built in parallel."""
        with cf.ThreadPoolExecutor(NCPU) as ex:
            return list(ex.map(lambda s: self.build(*s[0], **s[1]), specs))

    # ------------------------------------------------------------------ run
    def run(self, cmd, timeout=300, env=None, stdin=None, cwd=None):
        e = dict(os.environ)
        e.setdefault("OMP_WAIT_POLICY", "passive")
        e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=0"
        e["TSAN_OPTIONS"] = "exitcode=66:halt_on_error=0:report_thread_leaks=0:history_size=5"
        e.update(env or {})
        p = subprocess.Popen([str(c) for c in cmd], stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.PIPE if stdin else subprocess.DEVNULL,
                             env=e, cwd=cwd or self.work, start_new_session=True)
        try:
            out, err = p.communicate(stdin.encode() if stdin else None, timeout=timeout)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            out, err = p.communicate()
            rc = "timeout"
        return rc, out.decode(errors="replace"), err.decode(errors="replace")

    # ------------------------------------------------------------------ TLC
    def tlc(self, module, cfg=None, env=None, workers=None, timeout=800, extra=(), mem="3g", deque=False):
        meta = tempfile.mkdtemp(prefix="tlc_", dir=self.work)
        cmd = ["java", "-XX:+UseParallelGC" if (workers or 0) != 1 else "-XX:+UseSerialGC", f"-Xmx{mem}", "-Xss64m",
               "-Dtlc2.tool.impl.Tool.cdot=true"]
        if deque:
            cmd.append("-Dtlc2.tool.queue.IStateQueue=StateDeque")
        cmd += ["-cp", JARS + ":" + SPEC, "tlc2.TLC", "-config", os.path.join(SPEC, cfg or module + ".cfg"), "-metadir", meta,
                "-workers", str(workers or NCPU), "-noGenerateSpecTE", "-cleanup"] + list(extra) + [os.path.join(SPEC, module + ".tla")]
        rc, out, err = self.run(cmd, timeout=timeout, env=env, cwd=self.work)
        shutil.rmtree(meta, True)
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        return rc, out + err, gen, dist

    def model_check(self, module, cfg=None, timeout=800, expect_violation=None, workers=None, extra=(), env=None, note=""):
        """Exhaustive (or simulated) check of the design specification.  A violation here is a flaw of the specification, not of
        the code, so it is an error of the check (exit 2)."""
        t = time.time()
        rc, out, gen, dist = self.tlc(module, cfg, timeout=timeout, workers=workers, extra=extra, env=env)
        name = (cfg or module + ".cfg")
        if expect_violation:
            if expect_violation not in out or rc == 0:
                sys.stderr.write(brief(out))
                raise CheckError(f"negative control {name}: expected '{expect_violation}'")
            self.log(f"TLC {name}: negative control violated as expected ({dist} states, {time.time()-t:.1f}s)")
        else:
            if rc != 0 or "No error has been found" not in out and "-simulate" not in extra:
                sys.stderr.write(brief(out))
                raise CheckError(f"specification {name} does not satisfy its properties or TLC failed (rc={rc})")
            self.log(f"TLC {name}: {gen} generated, {dist} distinct, {time.time()-t:.1f}s {note}")
        self.states += dist
        self.transitions += gen
        self.mc.append(dict(model=name, distinct=dist, generated=gen, seconds=round(time.time() - t, 1), expected_violation=bool(expect_violation)))
        return out

    def generate(self, module, cfg=None, timeout=600, env=None):
        """Let TLC enumerate behaviours of the specification into a file; returns the parsed ndjson."""
        f = os.path.join(self.work, f"gen_{module}_{len(self.mc)}.ndjson")
        e = dict(env or {}); e["GEN"] = f
        rc, out, gen, dist = self.tlc(module, cfg, env=e, workers=1, timeout=timeout)
        if not os.path.exists(f):
            sys.stderr.write(brief(out))
            raise CheckError(f"generation from {module} failed")
        self.states += dist
        self.transitions += gen
        return [json.loads(l) for l in open(f) if l.strip()]

    def cases(self, recs, *keys):
        """Flatten TLC-generated records into a file of integer lines for the drivers."""
        def flat(x):
            if isinstance(x, str):
                return [x]
            if isinstance(x, bool):
                return [int(x)]
            if isinstance(x, int):
                return [x]
            return [z for y in x for z in flat(y)]
        f = os.path.join(self.work, f"cases_{len(os.listdir(self.work))}.txt")
        with open(f, "w") as o:
            for r in recs:
                o.write(" ".join(str(v) for k in keys for v in flat(r[k])) + "\n")
        self.log(f"{len(recs)} cases generated by TLC")
        self.cov["tlc_generated_cases"] = self.cov.get("tlc_generated_cases", 0) + len(recs)
        return f

    def validate(self, module, trace, cfg=None, timeout=800, env=None, mem="3g"):
        """Returns None if the trace is a behaviour of the specification, else a short description."""
        e = dict(env or {}); e["TRACE"] = trace
        rc, out, gen, dist = self.tlc(module, cfg, env=e, workers=1, timeout=timeout, mem=mem)
        self.states += dist
        self.transitions += gen
        if "No error has been found" in out and rc == 0:
            return None
        m = re.search(r'<<\s*"REJECTED",\s*(\d+)', out)
        if m:
            return int(m.group(1))
        if "Overflow when computing" in out:   # a recorded value so large that the specification cannot even compute with it
            m = re.findall(r"/\\ l = (\d+)", out)
            return int(m[-1]) if m else 1
        if rc == "timeout":
            raise CheckError(f"trace validation timed out: {module}")
        sys.stderr.write(brief(out))
        raise CheckError(f"trace validation failed to run: {module} (rc={rc})")

    def trace_check(self, module, jobs, cfg=None, env=None, timeout=120, confirm=True, mem="3g"):
        """jobs: list of (name, cmd [list; '{out}' is replaced by the trace file], env).  Runs every driver, validates each trace
        with TLC (in parallel), confirms rejections by a re-run."""
        def one(job):
            name, cmd, denv = job
            res = None
            for attempt in range(2):
                tr = os.path.join(self.work, f"tr_{name}_{attempt}.ndjson")
                rc, out, err = self.run([str(c).replace("{out}", tr) for c in cmd], timeout=timeout, env=denv)
                if rc == 3:
                    raise CheckError(f"driver {name}: {err[:500]}")
                if not os.path.exists(tr):
                    open(tr, "w").close()
                fix_tail(tr)
                n = sum(1 for _ in open(tr))
                r = self.validate(module, tr, cfg=cfg, env=env, mem=mem)
                if r is None and rc == 0:
                    return (name, None, n, tr)
                why = describe(tr, r, rc, err)
                res = (name, why, n, tr)
                # A completed trace that the specification rejects is evidence by itself, and so is a sanitizer report; a bare
                # crash or time-out must repeat (the machine may have run out of memory).
                if rc == 0 or "AddressSanitizer:" in err or "ThreadSanitizer:" in err or not confirm or self.sure:
                    if rc == 0 or "Sanitizer:" in err:
                        self.sure = True
                    break
                if attempt == 0:
                    self.log(f"{name}: rejected ({why[:300]}); re-running to confirm")
            return res
        with cf.ThreadPoolExecutor(max(1, NCPU // 2 if not self.quick else NCPU)) as ex:
            results = list(ex.map(one, jobs))
        for name, why, n, tr in results:
            self.traces += 1
            self.events += n
            if why is None:
                if len(self.samples) < 6:
                    self.samples.append(dict(trace=name, events=n, first=head(tr)))
                os.unlink(tr)
            else:
                self.violation(name, why, tr)
        return results

    # ------------------------------------------------------------------ outcome
    def violation(self, name, why, tracefile=None):
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f"{self.pid}_{re.sub(r'[^A-Za-z0-9_.-]', '_', name)}.txt")
        with open(path, "w") as f:
            f.write(f"property {self.pid}\ncase {name}\nseed {self.seed} tier {self.tier}\n{why}\n\n")
            if tracefile and os.path.exists(tracefile):
                f.write("--- trace ---\n")
                f.write(open(tracefile, errors="replace").read(20_000_000))
        for key, text in self.known:
            if key in why or key in name:
                self.known_hit.append((key, text))
                return
        self.violations.append((name, why, path))
        self.log(f"VIOLATION in {name}: {why[:1500]}")

    def finish(self, level="model_checking", extra_cov=None):
        cov = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces,
                   samples=self.samples[:8] or [dict(note="none")], trace_events=self.events, models=self.mc)
        cov.update(self.cov)
        cov.update(extra_cov or {})
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=level, coverage=cov, assumptions=self.assumptions,
                  wall_s=round(time.time() - self.t0, 1), violations=len(self.violations))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{self.pid}.json"), "w") as f:
            json.dump(ev, f, indent=1)
        for key, text in sorted(set(self.known_hit)):
            print(f"KNOWN-FINDING: property={self.pid} {text}")
        for name, why, path in self.violations:
            print(f"VIOLATION property={self.pid} replay={path}", flush=True)
        self.log(f"done: {len(self.violations)} violations, {self.traces} traces, {self.events} events, {self.states} states")
        sys.exit(1 if self.violations else 0)


def brief(out, n=1800):
    out = "\n".join(l for l in out.splitlines() if not re.match(r"(Parsing|Semantic) |TLC2 Version|Warning: Please|\(Use the|Running breadth", l))
    i = out.find("rror")
    return "\n" + out[max(0, i - 100):][:n] + "\n"


def fix_tail(path):
    """A crashed driver may leave a partial last line; cut it (the missing 'end' event still rejects the trace)."""
    data = open(path, "rb").read()
    if data and not data.endswith(b"\n"):
        data = data[: data.rfind(b"\n") + 1]
    if not data.strip():
        data = b'{"op":"nothing"}\n'
    open(path, "wb").write(data)


def head(path, n=2, width=400):
    with open(path) as f:
        return [f.readline()[:width].strip() for _ in range(n)]


def describe(tr, line, rc, err):
    lines = open(tr, errors="replace").read().splitlines()
    s = f"driver exit {rc}" if rc != 0 else ""
    if rc != 0:
        m = [l for l in err.splitlines() if "ERROR" in l or "Assertion" in l or "runtime error" in l or "WARNING: ThreadSanitizer" in l or "SUMMARY" in l]
        s += " [" + "; ".join(x[:300] for x in m[:3]) + "] last event: " + (lines[-1][:300] if lines else "")
    if line is not None:
        ev = lines[line - 1] if 0 < line <= len(lines) else "<end of trace>"
        s += f" trace not a behaviour of the specification: event {line}/{len(lines)}: {ev[:900]}"
    return s


def load_known(pid):
    """known_findings.txt: 'known: property=<id> key=<text> :: <description>'  (fixed: lines suppress nothing)"""
    res = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known:\s+property=(\S+)\s+key=(.+?)\s+::\s+(.*)", l)
            if m and m.group(1) == pid:
                res.append((m.group(2), m.group(3)))
    return res
