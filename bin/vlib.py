"""Common parts of the checks: builds, harness runs, TLC, evidence, verdicts."""
import atexit, json, os, random, re, shutil, signal, subprocess, sys, tempfile, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild

VERIF = vbuild.VERIF
SPEC = VERIF + "/spec"
ENV = {
    "NATRIUM_DIR": "/repo", "OMP_NUM_THREADS": "1", "DEAL_II_NUM_THREADS": "1",
    "OMPI_MCA_ess_singleton_isolated": "1", "OMPI_MCA_btl": "self,vader",
    "OMPI_MCA_rmaps_base_oversubscribe": "1", "OMPI_MCA_btl_vader_single_copy_mechanism": "none",
    "OMPI_ALLOW_RUN_AS_ROOT": "1", "OMPI_ALLOW_RUN_AS_ROOT_CONFIRM": "1",
}

class Stop(Exception):
    pass

def tlc_classpath():
    d = "/opt/veriftools/tla"
    jars = [d + "/tla2tools.jar", d + "/CommunityModules-deps.jar"]
    return ":".join(jars + [java_classes(jars)])

def java_classes(jars=("/opt/veriftools/tla/tla2tools.jar",)):
    """Compiles the evaluation of module Real (spec/java) once."""
    src = SPEC + "/java/Real.java"
    out = vbuild.BUILD + "/java-" + vbuild.sha(src)[:12]
    if not os.path.exists(out + "/Real.class"):
        with vbuild.Lock():
            if not os.path.exists(out + "/Real.class"):
                tmp = tempfile.mkdtemp(dir=vbuild.BUILD)
                subprocess.run(["javac", "-cp", ":".join(jars), "-d", tmp, src], check=True)
                shutil.rmtree(out, True)
                os.rename(tmp, out)
    return out

class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid = pid
        self.level = level
        self.t0 = time.time()
        self.tier = "thorough" if "--thorough" in sys.argv else os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.thorough = self.tier == "thorough"
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.rng = random.Random(self.seed * 1000003 + sum(map(ord, pid)))
        self.dir = tempfile.mkdtemp(prefix="natrium-%s-" % pid)
        atexit.register(shutil.rmtree, self.dir, True)
        self.states = self.transitions = self.traces = self.events = 0
        self.samples = []
        self.assumptions = []
        self.violations = []
        self.extra = {}
        self.known_hit = []
        self.replay_dir = VERIF + "/evidence/replay/" + pid
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        self._known = load_known(pid)

    # ---- building and running the real code
    def build(self, name):
        with vbuild.Lock():
            try:
                return vbuild.build_harness(name)
            except vbuild.BuildError as e:
                print(str(e)[-6000:])
                print("ERROR: %s does not build against the current tree" % name)
                raise Stop(3)

    def shim(self):
        """The library that watches (and ends) a process at its operations on checkpoint files."""
        src = VERIF + "/harness/shim.c"
        out = vbuild.BUILD + "/shim-" + vbuild.sha(src)[:12] + ".so"
        with vbuild.Lock():
            if not os.path.exists(out):
                subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-o", out + ".tmp", src, "-ldl"], check=True)
                os.rename(out + ".tmp", out)
        return out

    def path(self, *a):
        p = os.path.join(self.dir, *a)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        return p

    def env(self, sub="w"):
        e = dict(os.environ, **ENV)
        home = self.path(sub, "home", "x")[:-2]
        e["NATRIUM_HOME"] = home
        e["TMPDIR"] = home
        e["HOME"] = home
        return e

    def run(self, exe, args, timeout=300, np=1, cwd=None, sub="w", env=None, stdin=None):
        """Runs the harness; returns (returncode or 'timeout', output tail)."""
        e = self.env(sub)
        if env:
            e.update(env)
        cmd = [exe] + [str(a) for a in args]
        if np > 1:
            cmd = ["mpirun", "--allow-run-as-root", "--oversubscribe", "-np", str(np)] + cmd
            e.pop("OMPI_MCA_ess_singleton_isolated", None)
        p = subprocess.Popen(cmd, env=e, cwd=cwd or e["NATRIUM_HOME"], stdout=subprocess.PIPE,
                             stderr=subprocess.STDOUT, stdin=subprocess.PIPE if stdin else subprocess.DEVNULL,
                             text=True, errors="replace", start_new_session=True)
        try:
            out, _ = p.communicate(stdin, timeout=timeout)
            return p.returncode, out[-20000:]
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            out, _ = p.communicate()
            return "timeout", (out or "")[-20000:]

    # ---- TLC
    def tlc(self, module, cfg=None, env=None, workers=1, timeout=400, simulate=None, extra=(), depth=None, mem="3g"):
        """cfg: path or text. Returns dict(rc, out, states, distinct, generated)."""
        work = tempfile.mkdtemp(dir=self.dir, prefix="tlc-")
        if cfg is None:
            cfg = SPEC + "/" + module + ".cfg"
        elif "\n" in cfg or not os.path.exists(cfg):
            with open(work + "/M.cfg", "w") as f:
                f.write(cfg)
            cfg = work + "/M.cfg"
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + mem, "-Xss64m", "-Djava.io.tmpdir=" + work,
               "-DTLA-Library=" + SPEC,
               "-cp", tlc_classpath(), "tlc2.TLC", "-config", cfg, "-metadir", work + "/states",
               "-workers", str(workers), "-noGenerateSpecTE"]
        if simulate:
            cmd += ["-simulate", "num=%d" % simulate, "-depth", str(depth or 100), "-seed", str(self.seed)]
        cmd += list(extra) + [SPEC + "/" + module + ".tla"]
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        if env:
            e.update({k: str(v) for k, v in env.items()})
        p = subprocess.Popen(cmd, env=e, cwd=work, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                             text=True, errors="replace", start_new_session=True)
        try:
            out, _ = p.communicate(timeout=timeout)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            out, _ = p.communicate()
            rc = "timeout"
        shutil.rmtree(work, True)
        m = None
        for m in re.finditer(r"([\d,]+) states generated, ([\d,]+) distinct states found", out):
            pass
        gen = dist = 0
        if m:
            gen, dist = (int(x.replace(",", "")) for x in m.groups())
        else:
            m = re.search(r"([\d,]+) states checked", out) or re.search(r"The number of states generated: ([\d,]+)", out)
            if m:
                gen = dist = int(m.group(1).replace(",", ""))
        return {"rc": rc, "out": out, "generated": gen, "distinct": dist}

    def model(self, module, cfg=None, min_states=2, must_cover=(), **kw):
        """Checks the specification itself. A failure here is an error of the check, not a violation."""
        r = self.tlc(module, cfg, extra=list(kw.pop("extra", ())) + (["-coverage", "1"] if must_cover else []), **kw)
        if r["rc"] != 0 or r["distinct"] < min_states:
            print(gist(r["out"]))
            print("ERROR: the specification %s does not check (rc=%s, %d states)" % (module, r["rc"], r["distinct"]))
            raise Stop(4)
        for a in must_cover:
            ms = re.findall(r"<%s line [^>]*>: (\d+):(\d+)" % re.escape(a), r["out"])
            if not ms or max(int(y) for _, y in ms) == 0:
                print("ERROR: action %s of %s is never taken" % (a, module))
                raise Stop(4)
        self.states += r["distinct"]
        self.transitions += r["generated"]
        return r

    def validate(self, module, trace, cfg=None, timeout=600, env=None, quiet=False, **kw):
        """Checks a recorded trace against the trace specification.
        Returns None when accepted, otherwise the number of events matched."""
        n = sum(1 for _ in open(trace))
        if n == 0:
            return 0
        e = {"TRACE": trace}
        if env:
            e.update(env)
        r = self.tlc(module, cfg or TRACE_CFG, env=e, timeout=timeout, **kw)
        out = r["out"]
        if r["rc"] == 0 and "No error has been found" in out:
            self.states += r["distinct"]
            self.transitions += r["generated"]
            scn = set()
            for l in open(trace):
                m = re.match(r'\{"e":"[^"]*","s":(\d+)', l)
                scn.add(m.group(1) if m else None)
            self.traces += len(scn)
            self.events += n
            return None
        if "TraceAccepted" in out and ("postcondition" in out.lower() or "Assumption" in out or "violated" in out.lower()):
            # the search ended before the end of the trace
            m = re.search(r"The depth of the complete state graph search is (\d+)", out)
            return int(m.group(1)) - 1 if m else r["distinct"] - 1
        m = re.search(r"Invariant (\w+) is violated", out)
        if m:
            return max(len(re.findall(r"^State \d+:", out, re.M)) - 1, 0)
        if quiet:
            raise Stop(4)
        if r["rc"] in (75, 76, 77, 150, 151, 152, 153, 255, 12, 13) and "OutOfMemory" not in out and "behavior up to this point" in out:
            # an event of a shape the specification has no meaning for
            print(gist(out))
            m = re.search(r"The depth of the complete state graph search is (\d+)", out)
            return int(m.group(1)) - 1 if m else max(r["distinct"] - 1, 0)
        print(gist(out))
        print("ERROR: TLC could not evaluate %s on the trace (rc=%s)" % (module, r["rc"]))
        raise Stop(4)

    # ---- conformance: scenarios -> real code -> trace -> specification
    def conform(self, exe, module, scenarios, consts="", invariants=(), groups=8, timeout=240, np=1, what="",
                args=(), selftest=True, env=None, mem="2g", tenv=None, sub=None, isolate=False):
        """Runs the harness on the scenarios (in parallel groups) and validates each trace.
        exe SCENARIOS TRACE SCRATCHDIR [args]. Returns the traces (lists of events).
        A scenario that is a list is a chain of scenarios that belong together."""
        from concurrent.futures import ThreadPoolExecutor
        if not scenarios:
            return []
        tag = re.sub(r"[^A-Za-z0-9]+", "_", sub or "%s-%s" % (module, what or "x"))
        groups = max(1, min(groups, len(scenarios)))
        parts = [[s if isinstance(s, list) else [s] for s in scenarios[g::groups]] for g in range(groups)]
        cfg = trace_cfg(consts, invariants)

        def go(g):
            chains, known = parts[g], []
            while chains:
                viol, tr = self._group(exe, module, sum(chains, []), cfg, "%s/g%d" % (tag, g), timeout, np, what, args, env, mem,
                                       tenv, isolate)
                # a known finding ends the look at its chain; the others are looked at without it
                if not viol or not self.is_known(viol[0][0]) or viol[0][2] is None:
                    break
                known += viol
                at, n = 0, viol[0][2]
                for k, ch in enumerate(chains):
                    if at <= n < at + len(ch):
                        break
                    at += len(ch)
                chains = chains[:k] + chains[k + 1:]
                viol = []
            else:
                viol, tr = [], []
            return known + viol, tr
        with ThreadPoolExecutor(min(groups, max(1, 8 // np))) as ex:
            res = list(ex.map(go, range(groups)))
        traces = []
        for viol, tr in res:
            for v, files, _ in viol:
                self.violation(v, files)
            traces.append(tr)
        if selftest and not self.violations:
            self._selftest(module, cfg, max(traces, key=len) if traces else [], tag, tenv)
        return traces

    def _group(self, exe, module, part, cfg, tag, timeout, np, what, args, env, mem, tenv, isolate=False):
        sc = self.path(tag, "scenarios.json")
        write_lines(sc, part)
        tr = self.path(tag, "trace.ndjson")

        def execute():
            base = self.path(tag, "base", "x")[:-2]
            shutil.rmtree(base, True)
            os.makedirs(base)
            if os.path.exists(tr):
                os.remove(tr)
            if not isolate:
                rc, out = self.run(exe, [sc, tr, base] + list(args), timeout=timeout, np=np, sub=tag + "/w", env=env)
            else:
                # one process per scenario; how it ended is an event of the trace
                rc, out = 0, ""
                for n, s in enumerate(part):
                    one = sc + ".one"
                    write_lines(one, [s])
                    e = dict(env or {}, VT_APPEND="1", VT_SCN=str(n), VT_OPLOG=tr)
                    e.update(s.get("_env", {}))
                    r, o = self.run(exe, [one, tr, base] + list(args), timeout=s.get("_timeout", 60), np=s.get("_np", np), sub=tag + "/w", env=e)
                    out += o[-3000:]
                    how = ("hung" if r == "timeout" else "done" if r == 0 else "refused" if r == 1 else
                           "killed" if r in (77, -9, 137) else "crashed")
                    with open(tr, "a") as f:
                        f.write(json.dumps({"e": "Exited", "s": n, "how": how}) + "\n")
            with open(tr + ".out", "w") as f:
                f.write(out)
            shutil.rmtree(base, True)
            return rc, out, (read_trace(tr) if os.path.exists(tr) else [])

        rejected = 0   # a rejection counts when it is repeated
        for attempt in (1, 2, 3):
            rc, out, evs = execute()
            if rc == 0:
                if not evs:
                    print("ERROR: %s wrote no trace" % exe)
                    raise Stop(5)
                k = self.validate(module, tr, cfg=cfg, mem=mem, env=tenv)
                if k is None:
                    return [], evs
                rejected += 1
                if rejected == 2:
                    break
            elif attempt >= 2 or rc == "timeout":
                last = evs[-1] if evs else {}
                n = last.get("s", 0)
                scn = part[n] if 0 <= n < len(part) else None
                return [("%s: the program %s\n  scenario: %s\n  last event: %s\n%s" % (
                    what or module, "does not come to an end" if rc == "timeout" else "breaks off (exit %s)" % rc,
                    json.dumps(scn), json.dumps(last), out[-1500:]), [sc, tr, tr + ".out"], n)], evs
        e = evs[k] if k < len(evs) else {}
        n = e.get("s", -1)
        scn = part[n] if 0 <= n < len(part) else None
        prev = "\n".join("    " + json.dumps(x)[:600] for x in evs[max(0, k - 3):k])
        return [("%s: the specification %s does not allow event %d\n  event: %s\n  scenario: %s\n  before:\n%s" % (
            what or module, module, k + 1, json.dumps(e)[:3000], json.dumps(scn), prev), [sc, tr], n if n >= 0 else None)], evs

    def _selftest(self, module, cfg, evs, tag, tenv):
        """The trace specification must reject a corrupted copy of a trace it accepted."""
        if len(evs) < 2:
            return
        evs = evs[:400]
        rejected = 0
        for k in range(24):
            cp = json.loads(json.dumps(evs))
            if not corrupt(cp, self.rng):
                continue
            p = self.path(tag, "corrupt%d.ndjson" % k)
            write_lines(p, cp)
            st = (self.states, self.transitions, self.traces, self.events)
            try:
                r = self.validate(module, p, cfg=cfg, env=tenv, quiet=True)
            except Stop:
                r = 0
            (self.states, self.transitions, self.traces, self.events) = st
            if r is not None:
                rejected += 1
                break
        self.extra["corrupted_traces_rejected"] = self.extra.get("corrupted_traces_rejected", 0) + rejected
        if not rejected:
            print("ERROR: %s accepts corrupted traces" % module)
            raise Stop(6)

    # ---- verdicts
    def sample(self, x):
        if len(self.samples) < 6:
            self.samples.append(x)

    def is_known(self, what):
        return any(k["key"] in what for k in self._known)

    def violation(self, what, files=()):
        """Records one violation; known findings are reported as such."""
        for k in self._known:
            if k["key"] in what:
                if k["key"] not in self.known_hit:
                    self.known_hit.append(k["key"])
                    print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
                return
        os.makedirs(self.replay_dir, exist_ok=True)
        n = len(self.violations) + 1
        rp = "%s/%d.txt" % (self.replay_dir, n)
        with open(rp, "w") as f:
            f.write("property %s\n%s\n" % (self.pid, what))
        for src in files:
            if os.path.exists(src):
                shutil.copy(src, "%s/%d-%s" % (self.replay_dir, n, os.path.basename(src)))
        self.violations.append(rp)
        print(what)
        print("VIOLATION property=%s replay=%s" % (self.pid, rp))

    def finish(self):
        if not self.violations and (self.traces == 0 or self.events == 0):
            print("ERROR: nothing was validated")
            self.write_evidence()
            return 5
        self.write_evidence()
        print("%s: %s, %d states, %d traces (%d events) validated, %d violations, %.0fs" % (
            self.pid, self.tier, self.states, self.traces, self.events, len(self.violations), time.time() - self.t0))
        return 1 if self.violations else 0

    def write_evidence(self):
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "samples": self.samples,
               "trace_events": self.events}
        cov.update(self.extra)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": cov, "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.violations), "assumptions": self.assumptions}
        p = "%s/evidence/%s.json" % (VERIF, self.pid)
        with open(p + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(p + ".tmp", p)

def gist(out):
    """The part of TLC's output that says what went wrong."""
    ls = [x[:300] for x in out.splitlines() if not re.match(r"Loading|Parsing|Semantic|\d+\. Line", x)]
    k = next((i for i, x in enumerate(ls) if x.startswith("Error") or x.startswith("***")), max(0, len(ls) - 40))
    return "\n".join(ls[k:k + 25])[:5000]

TRACE_CFG = "SPECIFICATION TraceSpec\nPOSTCONDITION TraceAccepted\nCHECK_DEADLOCK FALSE\n"

def trace_cfg(consts="", invariants=()):
    return TRACE_CFG + ("CONSTANTS\n" + consts + "\n" if consts else "") + (
        "INVARIANTS " + " ".join(invariants) + "\n" if invariants else "")

def corrupt(evs, rng):
    """Changes one value of one event."""
    kinds = sorted({e["e"] for e in evs if "e" in e})
    for _ in range(50):
        kind = rng.choice(kinds) # rare events as often as frequent ones
        e = rng.choice([x for x in evs if x.get("e") == kind])
        ks = [k for k in e if k not in ("e", "s", "msg", "note")]
        if not ks:
            continue
        k = rng.choice(ks)
        v = e[k]
        if isinstance(v, bool):
            e[k] = not v
        elif isinstance(v, int):
            e[k] = v + 7
        elif isinstance(v, str):
            e[k] = v + "x"
        elif isinstance(v, list):
            e[k] = v[:-1] if v else [12345]
        else:
            continue
        return True
    return False

def load_known(pid):
    res = []
    p = VERIF + "/known_findings.txt"
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) key=\[(.*?)\] (.*)", line.strip())
            if m and m.group(1) == pid:
                res.append({"key": m.group(2), "what": m.group(3)})
    return res

def main(pid, body, level="model_checking"):
    c = Check(pid, level)
    shutil.rmtree(c.replay_dir, True)
    try:
        body(c)
        rc = c.finish()
    except Stop as s:
        c.write_evidence()
        rc = s.args[0]
    sys.stdout.flush()
    sys.exit(rc)

def read_trace(path):
    with open(path) as f:
        return [json.loads(l) for l in f if l.strip()]

def write_lines(path, objs):
    with open(path, "w") as f:
        for o in objs:
            f.write(json.dumps(o) + "\n")

def emitted(out, tag="@@"):
    """JSON values a specification printed with PrintT(tag \\o ToJson(x))."""
    res = []
    for line in out.splitlines():
        line = line.strip()
        if line.startswith('"' + tag):
            s = line[1 + len(tag):-1]
            s = s.replace('\\"', '"').replace("\\\\", "\\")
            res.append(json.loads(s))
    return res
