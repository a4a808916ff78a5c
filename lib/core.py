import hashlib, importlib, json, os, random, re, resource, shutil, signal, subprocess, sys, time, traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SPEC = os.path.join(ROOT, "spec")
TARGET = os.path.join(ROOT, "target")
NPROC = 8
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

# property -> module in lib/ with a function run(check)
PARTS = {
    "C01": "p_parser", "C02": "p_parser", "C03": "p_parser", "C04": "p_parser", "C22": "p_parser", "C26": "p_parser", "C24": "p_machines", "C25": "p_edit", "C27": "p_lang",
    "C05": "p_ll1", "C06": "p_ll1", "C07": "p_ll1",
    "C08": "p_rules", "C09": "p_rules", "C10": "p_rules", "C11": "p_rules",
    "C21": "p_calc", "C23": "p_tool", "C19": "p_vm", "C20": "p_vm",
    "C12": "p_cursor", "C13": "p_cursor", "C14": "p_tree", "C15": "p_tree", "C16": "p_graph", "C17": "p_graph", "C18": "p_builder",
}


class ToolError(Exception):
    pass


def log(*a):
    print("[check]", *a, flush=True)


def limits():
    os.setsid()
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


class Check:
    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.rng = random.Random(f"{prop}/{self.seed}")
        self.t0 = time.time()
        self.work = os.path.join(ROOT, "work", prop)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.states = 0
        self.transitions = 0
        self.validated = 0
        self.cases = 0
        self.steps = 0
        self.samples = []
        self.detail = {}
        self.assumptions = []
        self.rejected = []
        self.n = 0
        self.replaying = None

    def quick(self):
        return self.tier == "quick"

    def pick(self, quick, thorough):
        return quick if self.quick() else thorough

    def path(self, name):
        self.n += 1
        return os.path.join(self.work, f"{self.n:02d}-{name}")

    # ---- building the code under test -------------------------------------------------------------------------
    def build(self, *bins):
        """Builds drivers against /repo's working tree."""
        stale_guard()
        cmd = ["cargo", "build", "--offline", "--quiet"]
        for b in bins:
            cmd += ["--bin", b]
        env = dict(os.environ, CARGO_TARGET_DIR=TARGET, RUSTFLAGS="-Awarnings")
        r = subprocess.run(cmd, cwd=os.path.join(ROOT, "harness"), env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise ToolError("build failed:\n" + r.stdout[-4000:])

    # ---- running the code under test --------------------------------------------------------------------------
    def drive(self, bin, cases, case_seconds=20, extra_env=None):
        """Runs a driver on the cases (8 processes) and returns one observation per case, in order."""
        for k, c in enumerate(cases):
            c["id"] = k
        groups = [cases[i::NPROC] for i in range(NPROC)]
        runs = []
        for g, group in enumerate(groups):
            if not group:
                continue
            src = self.path(f"cases{g}.ndjson")
            dst = self.path(f"seen{g}.ndjson")
            with open(src, "w") as f:
                for c in group:
                    f.write(json.dumps(c) + "\n")
            open(dst, "w").close()
            runs.append(Drive(self, bin, group, src, dst, case_seconds, extra_env))
        while any(not r.finished for r in runs):
            for r in runs:
                r.poll()
            time.sleep(0.01)
        seen = {}
        for r in runs:
            for o in r.results():
                seen[o["id"]] = o
        return [seen[k] for k in sorted(seen)]

    # ---- TLC --------------------------------------------------------------------------------------------------
    def tlc(self, module, cfg, env=None, args=(), seconds=600, mem="5g", workers=NPROC):
        meta = self.path("meta")
        e = dict(os.environ, **{k: str(v) for k, v in (env or {}).items()})
        cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{mem}", "-Xss64m", "-Dtlc2.TLC.stopAfter=100000", "-cp", CP, "tlc2.TLC",
               "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-config", cfg, *args, module + ".tla"]
        out = self.path(f"tlc-{module}.out")
        with open(out, "w") as f:
            p = subprocess.Popen(cmd, cwd=SPEC, env=e, stdout=f, stderr=subprocess.STDOUT, preexec_fn=os.setsid)
            try:
                p.wait(timeout=seconds)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                raise ToolError(f"TLC did not finish {module} within {seconds} s ({out})")
        shutil.rmtree(meta, ignore_errors=True)
        text = open(out, errors="replace").read()
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", text)
        gen, dist = (int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))) if m else (0, 0)
        return p.returncode, text, gen, dist, out

    def design(self, module, cfg=None, env=None, seconds=600, note=None, args=(), expect=r"No error has been found"):
        """Exhaustive check of the specification itself."""
        t = time.time()
        rc, text, gen, dist, out = self.tlc(module, cfg or module + ".cfg", env, args, seconds)
        if rc != 0 or not re.search(expect, text):
            raise ToolError(f"the specification {module} ({cfg}) does not satisfy its own properties: see {out}\n" + text[-3000:])
        self.states += dist
        self.transitions += gen
        self.detail.setdefault("design", []).append(
            {"module": module, "cfg": cfg or module + ".cfg", "distinct_states": dist, "transitions": gen,
             "seconds": round(time.time() - t, 1), **({"what": note} if note else {})})
        log(f"design {module}/{cfg or ''}: {dist} states, {gen} transitions")

    def behaviours(self, module, cfg, env=None, args=(), seconds=600, tag="BEHAVIOUR "):
        """Behaviours TLC generated from the specification (printed as JSON)."""
        rc, text, gen, dist, out = self.tlc(module, cfg, env, args, seconds)
        if rc != 0:
            raise ToolError(f"TLC could not generate behaviours of {module}: {out}\n" + text[-3000:])
        res = []
        for line in text.splitlines():
            if line.startswith('"' + tag):
                res.append(json.loads(json.loads(line)[len(tag):]))
        self.states += dist
        self.transitions += gen
        self.detail.setdefault("generated_by_tlc", []).append({"module": module, "behaviours": len(res)})
        return res

    def judge(self, module, seen, env=None, cfg=None, seconds=840, what="cases", sample=None, weight=None, head=None):
        """TLC decides which observed executions are behaviours of the specification. head: a function giving the
        extra data file(s) for the given cases as {env name: object list}."""
        if not seen:
            return
        self.cases += len(seen)
        self.steps += sum(len(o.get("steps") or o.get("parses", ())) for o in seen)
        if sample is not None or len(self.samples) < 3:
            self.samples.append({"what": what, "case": shorten(seen[len(seen) // 2] if sample is None else sample)})
        accepted = self._accept(module, seen, env, cfg, seconds)
        bad = [o for k, o in enumerate(seen) if k not in accepted]
        self.validated += len(seen) - len(bad)
        self.detail.setdefault("validated", []).append(
            {"module": module, "what": what, "cases": len(seen), "accepted": len(seen) - len(bad)})
        log(f"judge {module} {what}: {len(seen) - len(bad)} of {len(seen)} accepted")
        for o in bad:
            self.rejected.append({"module": module, "cfg": cfg, "env": env, "case": o})

    def _accept(self, module, seen, env, cfg, seconds, depth=0):
        trace = self.path("trace.ndjson")
        with open(trace, "w") as f:
            for o in seen:
                f.write(json.dumps(o) + "\n")
        e = dict(env or {}, TRACE=trace)
        try:
            rc, text, gen, dist, out = self.tlc(module, cfg or module + ".cfg", e, seconds=seconds)
        except ToolError:
            raise
        self.states += dist
        self.transitions += gen
        acc = {int(x) - 1 for x in re.findall(r'^<<"OK", (\d+)>>', text, re.M)}
        if rc == 0 and "Model checking completed" in text:
            return acc
        if re.search(r"OutOfMemory|StackOverflowError|No space left|Parsing or semantic analysis failed|Cannot find source", text):
            raise ToolError(f"TLC failed on {module}: {out}\n" + text[-3000:])
        # The specification cannot even evaluate some observation (a value outside of its domains). Isolate it.
        left = [k for k in range(len(seen)) if k not in acc]
        log(f"TLC stopped with an evaluation error on {module}; isolating ({len(left)} cases left)")
        if len(left) == 1 and len(seen) == 1:
            seen[0]["tlc"] = text[-1500:]
            return acc
        if depth > 14:
            raise ToolError(f"TLC fails on {module}: {out}\n" + text[-3000:])
        half = len(left) // 2 if len(left) > 1 else 1
        first = left[:half]
        sub = self._accept(module, [seen[k] for k in first], env, cfg, seconds, depth + 1)
        acc |= {first[k] for k in sub}
        if len(sub) == len(first) and left[half:]:      # nothing wrong there: the trouble is in the second half
            rest = left[half:]
            sub = self._accept(module, [seen[k] for k in rest], env, cfg, seconds, depth + 1)
            acc |= {rest[k] for k in sub}
        else:
            acc |= set(left[half:])                     # one established rejection is enough
        return acc

    # ---- ending -----------------------------------------------------------------------------------------------
    def reject(self, case, why):
        self.rejected.append({"module": None, "case": case, "why": why})

    def finish(self):
        findings = known_findings(self.prop)
        violations = []
        for r in self.rejected:
            key = r["case"].get("key")
            hit = [w for (k, w) in findings if key is not None and k == key]
            if not hit:
                violations.append(r)
        for k, w in findings:
            print(f"KNOWN-FINDING: property={self.prop} {w}")
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.validated, "recorded_cases": self.cases,
               "recorded_steps": self.steps, "samples": self.samples, **self.detail}
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": cov, "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
              "violations": len(violations)}
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if not violations:
            # the work directory is only of interest when something failed
            shutil.rmtree(self.work, ignore_errors=True)
            log(f"{self.prop}: held on {self.validated} recorded cases, {self.steps} steps, "
                f"{self.states} states, {ev['wall_s']} s")
            return 0
        rdir = os.path.join(ROOT, "work", "replay")
        os.makedirs(rdir, exist_ok=True)
        violations.sort(key=lambda r: len(json.dumps(r["case"])))
        path = os.path.join(rdir, f"{self.prop}.json")
        with open(path, "w") as f:
            json.dump({"property": self.prop, "rejected": violations[:20], "total": len(violations)}, f, indent=1)
        log("first rejected case:", json.dumps(violations[0])[:1500])
        print(f"VIOLATION property={self.prop} replay={path}", flush=True)
        return 1


class Drive:
    """One driver process at a time over one file of cases; a death or a hang costs one case."""
    def __init__(self, check, bin, group, src, dst, case_seconds, extra_env):
        self.exe = os.path.join(TARGET, "debug", bin)
        self.group, self.src, self.dst, self.secs = group, src, dst, case_seconds
        self.extra = extra_env or {}
        self.lost = {}
        self.deaths = 0
        self.finished = False
        self.first = 0
        self.start()

    def start(self):
        self.stdout = self.dst + ".out"
        env = dict(os.environ, CONFORM_STDOUT=self.stdout, **self.extra)
        with open(self.stdout, "w") as o:
            self.p = subprocess.Popen([self.exe, self.src, self.dst, str(self.first)], stdout=o,
                                      stderr=subprocess.DEVNULL, preexec_fn=limits, env=env)
        self.size = -1
        self.last = time.time()

    def lines(self):
        with open(self.dst) as f:
            return sum(1 for l in f if l.endswith("\n"))

    def poll(self):
        if self.finished:
            return
        rc = self.p.poll()
        size = os.path.getsize(self.dst)
        if size != self.size:
            self.size, self.last = size, time.time()
        if rc is None:
            if time.time() - self.last > self.secs:
                os.killpg(self.p.pid, signal.SIGKILL)
                self.p.wait()
                self.lose("hang")
            return
        if rc == 0:
            self.finished = True
        elif rc == 70:
            raise ToolError(f"driver {self.exe} failed by itself on {self.src}")
        else:
            self.lose("crash")

    def lose(self, how):
        k = self.lines() + len(self.lost)       # the case that was being run
        if k >= len(self.group):
            self.finished = True
            return
        self.lost[k] = how
        self.deaths += 1
        self.first = k + 1
        if self.first >= len(self.group) or self.deaths >= (3 if how == "hang" else 10):
            self.finished = True                # the remaining cases are dropped; a violation is established
            return
        self.start()

    def results(self):
        with open(self.dst) as f:
            out = [json.loads(l) for l in f if l.endswith("\n")]
        for k, how in self.lost.items():
            c = {a: b for a, b in self.group[k].items() if not a.startswith("_")}
            c.update(end=how, steps=[])
            out.append(c)
        return out


def stale_guard():
    """Cargo looks at time stamps only; make sure a change of /repo's sources is never missed."""
    h = hashlib.sha256()
    for d, dirs, files in sorted(os.walk(REPO)):
        dirs[:] = sorted(x for x in dirs if x not in (".git", "target"))
        for f in sorted(files):
            p = os.path.join(d, f)
            if f.endswith(".rs") or f.startswith("Cargo."):
                h.update(p.encode())
                h.update(open(p, "rb").read())
    mark = os.path.join(TARGET, "repo.sha")
    old = open(mark).read() if os.path.exists(mark) else None
    if old != h.hexdigest():
        fp = os.path.join(TARGET, "debug", ".fingerprint")
        if os.path.isdir(fp):
            for x in os.listdir(fp):
                if x.startswith("henriks") or x.startswith("conform"):
                    shutil.rmtree(os.path.join(fp, x), ignore_errors=True)
        os.makedirs(TARGET, exist_ok=True)
        with open(mark, "w") as f:
            f.write(h.hexdigest())


def known_findings(prop):
    res = []
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) case=(\S+) (.*)", l)
            if m and m.group(1) == prop:
                res.append((m.group(2), m.group(3).strip()))
    return res


def shorten(x, n=2500):
    s = json.dumps(x)
    return x if len(s) <= n else s[:n] + "..."


def main(argv):
    if not argv or argv[0] not in PARTS:
        print("usage: check.py PROPERTY; one of " + " ".join(sorted(PARTS)))
        sys.exit(2)
    check = Check(argv[0])
    if len(argv) > 2 and argv[1] == "--replay":
        check.replaying = json.load(open(argv[2]))
    try:
        importlib.import_module(PARTS[argv[0]]).run(check)
        rc = check.finish()
    except ToolError as e:
        log("ERROR:", e)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
