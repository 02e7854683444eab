"""Driver library: builds a harness from /repo's current tree, runs TLC on the specifications,
replays specification behaviours, validates recorded traces, writes the evidence file."""
import json, os, re, subprocess, sys, time, shutil, hashlib, random
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARN = os.path.join(VERIF, "harness")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
import threading
_lock = threading.Lock(); _ntag = 0
NCPU = min(8, os.cpu_count() or 1)

class EnvError(Exception):
    """failure of the machinery itself: never reported as a violation"""

class Rejected(Exception):
    pass

class Check:
    def __init__(self, pid, tier=None):
        self.pid = pid
        self.tier = tier or os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.thorough = self.tier == "thorough"
        self.t0 = time.time()
        self.dir = os.path.join(VERIF, "build", pid)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.replays = os.path.join(VERIF, "build", "replays")
        os.makedirs(self.replays, exist_ok=True)
        self.states = 0; self.transitions = 0
        self.traces = 0; self.events = 0
        self.samples = []; self.assumptions = []
        self.models = []          # per-model record for the evidence file
        self.extra = {}
        self.violations = []      # (what, replay path)
        self.evcount = {}
        self.known = load_known(pid)
        self.known_hit = []

    def log(self, *a):
        print("[%s %6.1fs]" % (self.pid, time.time() - self.t0), *a, flush=True)

    # ------------------------------------------------------------------ build
    def build(self, src, name=None, flags=(), libs=()):
        name = name or os.path.splitext(os.path.basename(src))[0]
        exe = os.path.join(self.dir, name)
        cmd = ["g++", "-std=c++17", "-O1", "-w", "-include", "cstdint", "-I", REPO + "/include",
               "-I", HARN, *(["--coverage", "-O0", "-DVH_COV", "-fkeep-inline-functions"] if os.environ.get("VERIF_COV") else []), *flags, os.path.join(HARN, src), "-o", exe, "-lpthread", *libs]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise EnvError("harness %s does not compile against /repo:\n%s" % (src, r.stdout[-3000:]))
        self.log("built", name)
        return exe

    # ------------------------------------------------------------------ TLC
    def tlc(self, mod, cfg=None, env=None, workers=1, timeout=800, mem="3g", simulate=None, extra=(), tag=None):
        with _lock:
            global _ntag
            _ntag += 1; tag = "%s_%d" % (tag or mod, _ntag)
        meta = os.path.join(self.dir, "tlc_" + tag)
        shutil.rmtree(meta, ignore_errors=True)
        cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Xmx" + mem, "-Xss64m",
               "-Djava.io.tmpdir=" + self.dir, "-cp", CP, "tlc2.TLC", "-metadir", meta, "-noGenerateSpecTE",
               "-config", os.path.join(SPEC, (cfg or mod) + ".cfg"), "-workers", str(workers), *extra]
        if simulate: cmd += ["-simulate", simulate]
        cmd += [os.path.join(SPEC, mod + ".tla")]
        e = dict(os.environ); e.update(env or {})
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=e, timeout=timeout, cwd=self.dir)
        except subprocess.TimeoutExpired:
            raise EnvError("TLC timed out on %s" % tag)
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        return r.returncode, r.stdout

    @staticmethod
    def tlc_counts(out):
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        if m: return int(m[-1][0]), int(m[-1][1])
        m = re.findall(r"The number of states generated: (\d+)", out)
        if m: return int(m[-1]), int(m[-1])
        return 0, 0

    def model(self, mod, cfg=None, **kw):
        """design check: the specification itself has the property. A failure is an error of the check."""
        rc, out = self.tlc(mod, cfg, tag="mc_" + (cfg or mod), **kw)
        gen, dist = self.tlc_counts(out)
        if rc != 0:
            raise EnvError("specification %s/%s fails its own properties (rc %d):\n%s" % (mod, cfg, rc, out[-3000:]))
        self.states += dist; self.transitions += gen
        self.models.append(dict(model=cfg or mod, states=dist, transitions=gen))
        self.log("model", cfg or mod, "distinct", dist, "generated", gen)
        return out

    def generate(self, mod, cfg=None, prefix="@@", **kw):
        """behaviours enumerated by TLC, printed as JSON by the specification."""
        rc, out = self.tlc(mod, cfg, tag="gen_" + (cfg or mod), **kw)
        gen, dist = self.tlc_counts(out)
        if rc != 0:
            raise EnvError("generator %s/%s failed (rc %d):\n%s" % (mod, cfg, rc, out[-3000:]))
        self.states += dist; self.transitions += gen
        beh = []
        for l in out.splitlines():
            l = l.strip()
            if l.startswith('"' + prefix):
                beh.append(json.loads(json.loads(l)[len(prefix):]))
        self.models.append(dict(model=cfg or mod, states=dist, transitions=gen, behaviours=len(beh)))
        self.log("generator", cfg or mod, "behaviours", len(beh))
        return beh

    # ------------------------------------------------------------------ record
    def record(self, exe, input_path=None, shards=None, tag=None, env=None, timeout=600):
        shards = shards or NCPU
        tag = tag or os.path.basename(exe)
        files = []
        def one(i):
            f = os.path.join(self.dir, "%s.%d.ndjson" % (tag, i))
            cmd = [exe, f, str(i), str(shards), str(self.seed), self.tier] + ([input_path] if input_path else [])
            e = dict(os.environ); e.update(env or {}); e["VH_STDERR"] = "1"
            try:
                r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=e, timeout=timeout, errors="replace")
            except subprocess.TimeoutExpired:
                raise EnvError("harness timed out")
            if r.returncode != 0:
                raise EnvError("harness %s exited %d: %s" % (tag, r.returncode, r.stderr[-2000:]))
            return f
        with ThreadPoolExecutor(shards) as ex:
            files = list(ex.map(one, range(shards)))
        n = sum(os.path.getsize(f) for f in files)
        self.log("recorded", tag, "%.1f MB" % (n / 1e6))
        return files

    # ------------------------------------------------------------------ validate
    def validate(self, mod, files, cfg=None, env=None, timeout=800, mem="3g", what="", max_report=1, exe=None):
        """every recorded execution must be a behaviour of the specification."""
        def one(f):
            if os.path.getsize(f) == 0: return (f, 0, 0, None)
            return self._validate_file(mod, cfg, f, env, timeout, mem, what, max_report)
        with ThreadPoolExecutor(NCPU) as ex:
            res = list(ex.map(one, files))
        nc = ne = 0
        for (_, c, e, viol) in res:
            nc += c; ne += e
            for v in (viol or []): self.violations.append(v)
        self.traces += nc; self.events += ne
        self.log("validated", mod, "cases", nc, "events", ne, "rejected", sum(len(v or []) for *_, v in res))
        return nc

    def _run_trace(self, mod, cfg, f, env, timeout, mem):
        e = dict(env or {}); e["TRACE"] = f
        rc, out = self.tlc(mod, cfg, env=e, timeout=timeout, mem=mem, extra=("-deadlock",),
                           tag="tr_%s_%s" % (mod, hashlib.md5(f.encode()).hexdigest()[:8]))
        m = re.search(r'"TRACE_MATCHED", (\d+), (\d+)', out)
        gen, dist = self.tlc_counts(out)
        if rc == 0 and m and m.group(1) == m.group(2):
            return True, int(m.group(2)), gen, dist, out
        if m is None or rc not in (0, 10, 12, 13, 75) :
            # evaluation error on a recorded value (ill-typed or out-of-range datum) is a rejection of that line;
            # anything else (parse error, out of memory, ...) is an error of the machinery
            lm = re.findall(r"/\\ l = (\d+)", out) or re.findall(r"\bl = (\d+)", out)
            if "TLC threw an unexpected exception" in out or "evaluating" in out or "Attempted to" in out or "The error occurred when TLC was evaluating" in out:
                if "OutOfMemory" in out or "StackOverflow" in out:
                    raise EnvError("TLC resource failure:\n" + out[-2000:])
                k = int(lm[-1]) - 1 if lm else 0
                return False, k, gen, dist, out
            raise EnvError("TLC failed on %s (rc %d):\n%s" % (f, rc, out[-3000:]))
        return False, int(m.group(1)), gen, dist, out

    def _validate_file(self, mod, cfg, f, env, timeout, mem, what, max_report):
        lines = open(f).read().splitlines()
        total_cases = set(); nev = len(lines)
        for l in lines:
            total_cases.add(json.loads(l)["c"])
            ev = re.search(r'"ev":"(\w+)"', l).group(1)
            self.evcount[ev] = self.evcount.get(ev, 0) + 1
        if not self.samples:
            self.samples.append(lines[0][:600])
        viol = []; cur = f; cur_lines = lines
        for attempt in range(max_report + 1):
            ok, k, gen, dist, out = self._run_trace(mod, cfg, cur, env, timeout, mem)
            if ok:
                self.states += dist; self.transitions += gen
                break
            ok2, k2, *_ , out2 = self._run_trace(mod, cfg, cur, env, timeout, mem)  # must repeat
            if ok2 or k2 != k:
                raise EnvError("trace rejection did not repeat: %s line %d / %s" % (cur, k, k2))
            if k >= len(cur_lines): raise EnvError("bad rejection index\n" + out[-2000:])
            bad = json.loads(cur_lines[k]); c = bad["c"]
            case_lines = [l for l in cur_lines if json.loads(l)["c"] == c]
            why = sorted(set(re.findall(r'"FAIL", "([^"]+)"', out)))
            errm = re.findall(r"(Attempted to [^\n]+)", out)
            key = hashlib.md5("\n".join(case_lines[:1]).encode()).hexdigest()[:10]
            rp = os.path.join(self.replays, "%s-%s-%s.ndjson" % (self.pid, os.path.basename(f).split(".")[0], key))
            with open(rp, "w") as g:
                g.write("\n".join(case_lines) + "\n")
            with open(rp + ".txt", "w") as g:
                g.write("specification: %s\ncase: %s\nrejected event (first line no behaviour of the specification allows):\n%s\nfailed clauses: %s\n%s\n" %
                        (mod, c, cur_lines[k], why, errm[:3]))
            viol.append(("%s case %s event %s: %s %s" % (what or mod, c, bad["ev"], ",".join(why), errm[:1] or ""), rp))
            if attempt >= max_report - 1: break
            cur_lines = [l for l in cur_lines if json.loads(l)["c"] != c]
            if not cur_lines: break
            cur = f + ".rest"
            with open(cur, "w") as g: g.write("\n".join(cur_lines) + "\n")
        return (f, len(total_cases), nev, viol)

    # ------------------------------------------------------------------ results
    def finish(self):
        cov = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces,
                   samples=self.samples[:4] or ["none"], events_validated=self.events, events_by_kind=self.evcount, models=self.models)
        cov.update(self.extra)
        new = []; 
        for what, rp in self.violations: new.append((what, rp))
        ev = dict(property=self.pid, tier=self.tier if self.tier in ("quick", "thorough") else "quick", seed=self.seed,
                  level="model_checking", coverage=cov, assumptions=self.assumptions,
                  wall_s=round(time.time() - self.t0, 2), violations=len(new))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f: json.dump(ev, f, indent=1)
        for k in self.known_hit: print("KNOWN-FINDING: property=%s %s" % (self.pid, k))
        for what, rp in new[:4]:
            print("  rejected:", what)
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
        if not os.environ.get("VERIF_KEEP"): shutil.rmtree(self.dir, ignore_errors=True)
        self.log("done, violations:", len(new), "states", self.states, "traces", self.traces)
        return 1 if new else 0

def load_known(pid):
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt"); r = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l)
            if m and m.group(1) == pid: r.append((m.group(2), m.group(3).strip()))
    return r
