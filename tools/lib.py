"""Shared runner: build harnesses from /repo, run them, run TLC, report."""
import json, os, re, shutil, subprocess, sys, tempfile, time, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("LEXERTL_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARN = os.path.join(VERIF, "harness")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = 8

class Broken(Exception):
    """the machinery itself failed (no verdict)"""

class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.quick = tier == "quick"
        self.t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix="vchk_%s_" % pid, dir="/tmp")
        self.violations, self.samples = [], []
        self.states = self.transitions = self.traces = self.evals = 0
        self.notes, self.assumptions, self.known = [], [], []
        self.extra = {}
        self.dist = set()   # distinct programs seen
        self._bins = {}

    def path(self, n): return os.path.join(self.dir, n)
    def log(self, *a): print("[%s %5.1fs]" % (self.pid, time.time() - self.t0), *a, flush=True)
    def scale(self, q, t): return q if self.quick else t

    # ------------------------------------------------------------- building
    def build_many(self, specs):
        """specs: {name: (source, [flags])}; compiled in parallel"""
        def one(item):
            name, (src, flags) = item
            out = self.path(name)
            cmd = ["g++", "-std=c++17", "-I" + os.path.join(REPO, "include"), "-I" + HARN] + list(flags) + [os.path.join(HARN, src) if not src.startswith("/") else src, "-o", out]
            p = subprocess.run(cmd, capture_output=True, text=True)
            return name, out, p
        with cf.ThreadPoolExecutor(NCPU) as ex:
            for name, out, p in ex.map(one, specs.items()):
                if p.returncode:
                    sys.stderr.write(p.stderr[-4000:])
                    raise Broken("harness %s does not compile against %s" % (name, REPO))
                self._bins[name] = out
        self.log("built", ", ".join(specs))

    def bin(self, n): return self._bins[n]

    # ------------------------------------------------------------- replaying
    def replay_cases(self, binary, cases, timeout=600, env=None):
        """Feed cases (JSON objects) to the harness, in NCPU processes.
        Returns the list of output objects; a case on which the harness
        dies or hangs yields {"e": "CRASH ..."} (and the rest goes on)."""
        res = [None] * len(cases)
        nproc = max(1, min(NCPU, len(cases) // 4 or 1))
        idx = [list(range(k, len(cases), nproc)) for k in range(nproc)]
        def worker(k):
            mine = idx[k]
            done = 0
            fn = self.path("in_%s_%d_%d" % (os.path.basename(binary), k, int(time.time() * 1e6) % 10**9))
            with open(fn, "w") as f:
                for j in mine: f.write(json.dumps(cases[j], separators=(",", ":")) + "\n")
            crashes = 0
            while done < len(mine):
                e = dict(os.environ); e["ASAN_OPTIONS"] = "detect_leaks=1:abort_on_error=0:exitcode=77:allocator_may_return_null=1"
                e["UBSAN_OPTIONS"] = "halt_on_error=1:print_stacktrace=0"
                if env: e.update(env)
                try:
                    p = subprocess.run([binary, fn, str(done)], capture_output=True, timeout=timeout, env=e, cwd=self.dir)
                    out, err, rc = p.stdout.decode("utf8", "replace"), p.stderr.decode("utf8", "replace"), p.returncode
                except subprocess.TimeoutExpired as ex:
                    out, err, rc = (ex.stdout or b"").decode("utf8", "replace"), "timeout", -99
                lines = out.split("\n")
                good = 0
                for ln in lines:
                    if not ln or done + good >= len(mine): continue
                    try: o = json.loads(ln)
                    except ValueError: break
                    res[mine[done + good]] = o; good += 1
                done += good
                if done < len(mine):
                    m = re.search(r"(runtime error: [^\n]*|ERROR: AddressSanitizer: [^\n]*|Assertion[^\n]*|HANG|what\(\)[^\n]*)", err + out)
                    res[mine[done]] = {"e": "CRASH " + (m.group(1) if m else "exit %s %s" % (rc, err[-200:])), "r": [], "err": err[-3000:]}
                    done += 1; crashes += 1
                    if crashes > 20: 
                        for j in mine[done:]: res[j] = {"e": "NOTRUN", "r": []}
                        break
                elif rc not in (0,):
                    m = re.search(r"(ERROR: LeakSanitizer[^\n]*|SUMMARY[^\n]*)", err)
                    res[mine[-1]] = {"e": "CRASH at exit: " + (m.group(1) if m else "exit %s" % rc), "r": [], "err": err[-3000:]}
            os.unlink(fn)
        with cf.ThreadPoolExecutor(nproc) as ex: list(ex.map(worker, range(nproc)))
        self.evals += len(cases)
        return res

    def crashes(self, cases, obs, what="the library crashed, hung or broke memory rules"):
        """report crash outcomes; returns the indices still worth comparing"""
        keep = []
        n = 0
        for j, o in enumerate(obs):
            if isinstance(o["e"], str) and o["e"].startswith(("CRASH", "UNEXPECTED")):
                n += 1
                if n <= 3: self.violation("%s: %s" % (what, o["e"]), {"case": cases[j], "observed": o})
            elif o["e"] != "NOTRUN": keep.append(j)
        return keep

    # ------------------------------------------------------------------ TLC
    def tlc(self, module, cases=None, obs=None, cfg=None, env=None, workers=NCPU, extra=(), timeout=840, heap="8g"):
        e = dict(os.environ)
        if cases is not None:
            fn = self.path(module + ".cases"); self._nd(fn, cases); e["CASES"] = fn
        if obs is not None:
            fn = self.path(module + ".obs"); self._nd(fn, obs); e["OBS"] = fn
        if env: e.update({k: str(v) for k, v in env.items()})
        meta = tempfile.mkdtemp(prefix="tlc", dir=self.dir)
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-cp", JAR, "tlc2.TLC", "-workers", str(workers), "-metadir", meta,
               "-noGenerateSpecTE", "-config", (cfg or module) + ".cfg"] + list(extra) + [module + ".tla"]
        p = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout)
        shutil.rmtree(meta, ignore_errors=True)
        out = p.stdout
        r = {"out": out, "ok": "No error has been found" in out or ("-simulate" in extra and "rror" not in out and "The number of states generated" in out), "violated": None, "state": None}
        m = re.search(r"(\d+) states generated, (\d+) distinct states", out)
        if m: self.transitions += int(m.group(1)); self.states += int(m.group(2)); r["distinct"] = int(m.group(2))
        m = re.search(r"Invariant (\w+) is violated|Error: Action property (\w+) is violated|Temporal properties were violated|property (\w+) (?:is|was) violated", out)
        if m: r["violated"] = m.group(1) or m.group(2) or m.group(3) or "temporal"
        if r["violated"]:
            st = out.split("\nState ")[-1] if "\nState " in out else out[out.find("is violated"):]
            st = re.split(r"\n\s*\n", st)[0]
            r["state"] = st
        elif not r["ok"]:
            fn = os.path.join(VERIF, "evidence", "tlc-error-%s.txt" % self.pid)
            os.makedirs(os.path.dirname(fn), exist_ok=True)
            with open(fn, "w") as f: f.write(out + p.stderr)
            raise Broken("TLC gave no verdict on %s: %s" % (module, "\n".join(l for l in out.split("\n") if "rror" in l)[:1500]))
        return r

    def _nd(self, fn, objs):
        with open(fn, "w") as f:
            for o in objs: f.write(json.dumps(o, separators=(",", ":")) + "\n")

    def known_finding(self, text):
        """one listed in known_findings.txt (which is never written here)"""
        with open(os.path.join(VERIF, "known_findings.txt")) as f: listed = f.read()
        if "KNOWN-FINDING: property=%s %s" % (self.pid, text) not in listed.split("\n"):
            raise Broken("not a listed finding: " + text)
        self.known.append(text)

    def conform(self, module, cases, obs, view=None, rounds=3, **kw):
        """Trace validation of obs against the specification; up to `rounds`
        distinct non-conforming cases are reported."""
        live = [j for j in range(len(cases))]
        for _ in range(rounds):
            cs = [view(cases[j]) if view else cases[j] for j in live]
            r = self.tlc(module, cases=cs, obs=[obs[j] for j in live], **kw)
            if not r["violated"]: break
            m = re.search(r"/\\ c = (\d+)", r["state"] or "")
            if not m: raise Broken("cannot parse TLC state: %s" % (r["state"] or r["out"][-800:]))
            j = live[int(m.group(1)) - 1]
            t = re.search(r"/\\ t = (\d+)", r["state"])
            what = re.search(r'/\\ bad = "([^\n]*)"', r["state"])
            self.violation("%s: invariant %s%s: %s" % (module, r["violated"], (" text %s" % t.group(1)) if t else "", what.group(1) if what else ""),
                           {"case": cases[j], "observed": obs[j], "state": r["state"]})
            live.remove(j)
        return r

    def violation(self, what, detail):
        self.violations.append((what, detail))
        self.log("VIOLATED:", what[:600])

    # ----------------------------------------------------------------- finish
    def sample(self, *objs):
        for o in objs:
            if len(self.samples) < 6:
                s = json.dumps(o)
                self.samples.append(o if len(s) < 3000 else s[:3000])

    def finish(self, level="model_checking"):
        ev = os.path.join(VERIF, "evidence"); os.makedirs(ev, exist_ok=True)
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
               "evaluations": self.evals, "distinct_programs": len(self.dist), "samples": self.samples or ["none"]}
        cov.update(self.extra)
        d = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
             "wall_s": round(time.time() - self.t0, 2), "assumptions": self.assumptions, "violations": len(self.violations)}
        with open(os.path.join(ev, self.pid + ".json"), "w") as f: json.dump(d, f, indent=1)
        for k in self.known: print("KNOWN-FINDING: property=%s %s" % (self.pid, k))
        rc = 0
        if self.violations:
            rc = 1
            fn = os.path.join(ev, "replay-%s.json" % self.pid)
            with open(fn, "w") as f: json.dump([{"what": w, "detail": x} for w, x in self.violations], f, indent=1)
            for w, _ in self.violations[:3]: print("  ", w[:1000])
            print("VIOLATION property=%s replay=%s" % (self.pid, fn))
        self.log("done: %d states, %d traces, %d evaluations, %d violations" % (self.states, self.traces, self.evals, len(self.violations)))
        return rc

    def cleanup(self): shutil.rmtree(self.dir, ignore_errors=True)
