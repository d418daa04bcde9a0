"""Shared machinery of the checks: build the harness, run TLC, validate traces, write evidence."""
import json, os, re, shutil, subprocess, sys, time, hashlib
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
TARGET = os.path.join(HARNESS, "target")
EVID = os.path.join(VERIF, "evidence")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = max(2, min(8, os.cpu_count() or 8))


class ToolError(Exception):
    pass


def build_env():
    e = dict(os.environ)
    e.update(HOME="/root", RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="",
             CARGO_INCREMENTAL="1", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", CARGO_TARGET_DIR=TARGET, RUST_BACKTRACE="0")
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    h = hashlib.sha256()
    for d in sorted(os.listdir(REPO)):
        c = os.path.join(REPO, d, "c_code")
        if os.path.isdir(c):
            for f in sorted(os.listdir(c)):
                h.update(f.encode())
                h.update(open(os.path.join(c, f), "rb").read())
    e["CFLAGS"] = "-DC_CODE_HASH=0x" + h.hexdigest()[:16]
    return e


def source_hash():
    h = hashlib.sha256()
    for base in sorted(d for d in os.listdir(REPO) if d.startswith("russell_")):
        for root, dirs, files in os.walk(os.path.join(REPO, base)):
            dirs.sort()
            if "/src" not in root and "c_code" not in root and root != os.path.join(REPO, base):
                continue
            for f in sorted(files):
                if f.endswith((".rs", ".toml", ".c", ".h")):
                    p = os.path.join(root, f)
                    h.update(p.encode())
                    h.update(open(p, "rb").read())
    return h.hexdigest()


def build():
    """builds the harness from the working tree of /repo; a change of content forces recompilation whatever the mtimes say"""
    env = build_env()
    stamp = os.path.join(TARGET, "source.hash")
    now = source_hash()
    old = open(stamp).read() if os.path.exists(stamp) else None
    if old is not None and old != now:
        subprocess.run(["cargo", "clean", "--offline"] + sum([["-p", "russell_" + x] for x in
                       ("lab", "sparse", "ode", "nonlin", "pde", "stat", "tensor")], []),
                       cwd=HARNESS, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    r = subprocess.run(["cargo", "build", "--offline", "--quiet"], cwd=HARNESS, env=env, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, timeout=850)
    if r.returncode != 0:
        raise ToolError("harness build failed:\n" + r.stdout[-4000:])
    with open(stamp, "w") as f:
        f.write(now)
    return os.path.join(TARGET, "debug", "vharness")


def tlc(module, cfg, work, args=(), env=None, xmx="2g", workers="1", timeout=600, gc="Serial"):
    meta = os.path.join(work, "meta-%s-%d" % (os.path.basename(cfg), time.monotonic_ns()))
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-XX:+Use%sGC" % gc, "-Xmx" + xmx, "-Xss16m", "-XX:TieredStopAtLevel=4", "-Djava.io.tmpdir=" + work, "-cp", JARS, "tlc2.TLC", "-config", cfg,
           "-workers", workers, "-metadir", meta, "-noGenerateSpecTE"] + list(args) + [module]
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError("TLC timed out on %s" % module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return r.returncode, r.stdout


def stats_of(text):
    m = re.findall(r"([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found", text)
    if not m:
        m2 = re.findall(r"The number of states generated: ([\d,]+)", text)
        if m2:
            n = int(m2[-1].replace(",", ""))
            return n, n
        return 0, 0
    g, d = m[-1]
    return int(d.replace(",", "")), int(g.replace(",", ""))


class Check:
    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.thorough = self.tier == "thorough"
        self.t0 = time.time()
        self.work = os.path.join(VERIF, "work", "%s-%d" % (prop, os.getpid()))
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        os.makedirs(EVID, exist_ok=True)
        self.states = 0
        self.transitions = 0
        self.validated = 0
        self.events = 0
        self.samples = []
        self.detail = {}
        self.violations = []
        self.known = []
        self.findings = load_findings(prop)
        self.harness = None

    # -- step 1: the model ------------------------------------------------
    def cfg_path(self, cfg, consts):
        """the committed configuration, with constants replaced for this tier"""
        if not consts:
            return cfg + ".cfg"
        t = open(os.path.join(SPEC, cfg + ".cfg")).read()
        for k, v in consts.items():
            t, n = re.subn(r"\b%s = \S+" % k, "%s = %s" % (k, v), t)
            if n != 1:
                raise ToolError("constant %s not in %s" % (k, cfg))
        p = os.path.join(self.work, "%s-%d.cfg" % (cfg, time.monotonic_ns()))
        with open(p, "w") as f:
            f.write(t)
        return p

    def model(self, module, cfg=None, timeout=600, workers=None, args=(), consts=None):
        rc, text = tlc(module + ".tla", self.cfg_path(cfg or module, consts), self.work, args=args, workers=str(workers or CORES), xmx="8g",
                       timeout=timeout, gc="Parallel")
        if rc != 0 or "No error has been found" not in text:
            raise ToolError("model %s failed:\n%s" % (cfg or module, text[-3000:]))
        d, g = stats_of(text)
        if d == 0:
            raise ToolError("model %s explored nothing" % module)
        self.states += d
        self.transitions += g
        self.detail.setdefault("models", {})[cfg or module] = {"distinct_states": d, "states_generated": g}
        return text

    # -- spec-generated stimuli ---------------------------------------------
    def generate(self, module, cfg=None, simulate=None, depth=20, limit=None, timeout=600, env=None, consts=None):
        """runs a generator module; every printed <<"GEN", json>> is one scenario"""
        args = []
        if simulate:
            args = ["-simulate", "num=%d" % simulate, "-depth", str(depth), "-seed", str(self.seed)]
        rc, text = tlc(module + ".tla", self.cfg_path(cfg or module, consts), self.work, args=args, workers="1" if simulate else str(CORES),
                       xmx="6g", timeout=timeout, env=env, gc="Parallel")
        if "Error:" in text:
            raise ToolError("generator %s failed:\n%s" % (module, text[-3000:]))
        out = []
        for m in re.finditer(r'^<<\s*"GEN",\s*("(?:[^"\\]|\\.)*")\s*>>', text, re.M):
            out.append(json.loads(json.loads(m.group(1))))
        if not out:
            raise ToolError("generator %s produced nothing:\n%s" % (module, text[-2000:]))
        d, g = stats_of(text)
        self.states += d
        self.transitions += g
        self.detail.setdefault("generators", {})[(cfg or module) + ("-sim" if simulate else "")] = {"scenarios": len(out), "states": d}
        if limit and len(out) > limit:
            import random
            out = random.Random(self.seed).sample(out, limit)
        return out

    # -- step 2: execution ----------------------------------------------------
    def run_harness(self, *args, timeout=700):
        if self.harness is None:
            self.harness = build()
        e = dict(os.environ)
        e.update(OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", VSCRATCH=self.work)
        return subprocess.run([self.harness] + [str(a) for a in args], env=e, cwd=self.work, stdout=subprocess.PIPE,
                              stderr=subprocess.PIPE, text=True, timeout=timeout)

    def random_stimuli(self, area, count):
        p = os.path.join(self.work, "rand-%s.ndjson" % area.replace(":", "_"))
        r = self.run_harness(area, "rand", self.seed, count, self.tier, p)
        if r.returncode != 0:
            raise ToolError("driver failed: " + r.stderr[-2000:])
        return [json.loads(x) for x in open(p)]

    def execute(self, area, scenarios, shards=CORES):
        """runs scenarios on the real code in parallel; returns list of traces (lists of events), one per scenario"""
        if self.harness is None:
            self.harness = build()
        n = max(1, min(shards, len(scenarios)))
        parts = [scenarios[i::n] for i in range(n)]

        def one(i):
            sp = os.path.join(self.work, "stim-%d.ndjson" % i)
            tp = os.path.join(self.work, "trace-%d.ndjson" % i)
            with open(sp, "w") as f:
                for s in parts[i]:
                    f.write(json.dumps(s) + "\n")
            try:
                r = self.run_harness(area, "exec", sp, tp)
            except subprocess.TimeoutExpired:
                raise ToolError("harness timed out")
            if r.returncode != 0:
                cur = None
                if os.path.exists(tp + ".current"):
                    cur = json.loads(open(tp + ".current").read())
                if "harness:" in r.stderr or cur is None:
                    raise ToolError("harness error %d: %s" % (r.returncode, r.stderr[-2000:]))
                return ("dead", cur, "the code under test %s" % {97: "did not return", 101: "failed where it must not: " + r.stderr.strip()[-300:]}.get(
                    r.returncode, "ended the process (status %d)" % r.returncode))
            traces, cur = [], None
            for line in open(tp):
                ev = json.loads(line)
                if ev["e"] == "reset":
                    cur = []
                    traces.append(cur)
                cur.append(ev)
            os.remove(tp)
            os.remove(sp)
            return ("ok", traces, None)

        with ThreadPoolExecutor(n) as ex:
            res = list(ex.map(one, range(n)))
        out = []
        for kind, data, why in res:
            if kind == "dead":
                self.violate({"scenario": data, "why": why}, {"e": "crash", "why": why}, [{"e": "reset"}])
            else:
                out.extend(data)
        return out

    # -- step 3: validation -----------------------------------------------------
    def validate(self, module, traces, relevant=None, cfg=None, max_events=4000, timeout=800, xmx="2g"):
        shards, cur, n = [], [], 0
        for t in traces:
            if cur and n + len(t) > max_events:
                shards.append(cur)
                cur, n = [], 0
            cur.append(t)
            n += len(t)
        if cur:
            shards.append(cur)

        def one(a):
            k, sh = a
            p = os.path.join(self.work, "%s-v%d.ndjson" % (module, k))
            flat, start = [], []
            for ti, t in enumerate(sh):
                start.append(len(flat))
                flat.extend((ti, ev) for ev in t)
            bad, skips, D, G, first, tries = [], 0, 0, 0, 0, 0
            while first < len(sh):
                base = start[first]
                with open(p, "w") as f:
                    for ti in range(first, len(sh)):
                        nx = (start[ti + 1] if ti + 1 < len(sh) else len(flat)) - base + 1
                        for ev in sh[ti]:
                            d = dict(ev)
                            d["nx"] = nx
                            f.write(json.dumps(d) + "\n")
                rc, text = tlc(module + ".tla", (cfg or module) + ".cfg", self.work, env={"TRACE": p}, xmx=xmx, timeout=timeout)
                bad.extend(base + int(m) for m in re.findall(r'<<\s*"MISMATCH",\s*(\d+)', text))
                skips += len(re.findall(r'<<\s*"SKIP",', text))
                d, g = stats_of(text)
                D += d
                G += g
                if '"TRACE-END"' in text:
                    break
                ms = re.findall(r"\bl = (\d+)", text)
                tries += 1
                if not ms or "Error:" not in text:
                    raise ToolError("validation of %s failed:\n%s" % (module, text[-3000:]))
                # the spec cannot interpret the observation at this event: not a behaviour of the spec; go on after it
                at = base + int(ms[-1])
                if os.environ.get("VERIF_DEBUG"):
                    sys.stderr.write("EVAL %s\n%s\n" % (json.dumps(flat[at - 1][1])[:1500], "\n".join(
                        x for x in text.split("\n") if not re.match(r"^(/\\\\|State|\s)", x))[-1500:]))
                bad.append(at)
                first = flat[at - 1][0] + 1
                if tries > 20:
                    break  # enough: the remaining scenarios of this part are left out
            if os.path.exists(p):
                os.remove(p)
            return sh, flat, bad, D, G, skips, None

        with ThreadPoolExecutor(CORES) as ex:
            res = list(ex.map(one, enumerate(shards)))
        skipped = 0
        for sh, flat, bad, d, g, skips, text in res:
            self.states += d
            self.transitions += g
            self.events += len(flat)
            skipped += skips
            badtraces = set()
            for b in bad:
                ti, ev = flat[b - 1]
                if relevant is not None and not relevant(ev):
                    continue
                badtraces.add(ti)
                start = b - 1
                while flat[start][1]["e"] != "reset":
                    start -= 1
                self.violate({"module": module, "trace": [x[1] for x in flat[start:b]], "failing_event": ev}, ev, sh[ti])
            self.validated += len(sh) - len(badtraces)
        if skipped:
            self.detail["scenarios_cut_short"] = self.detail.get("scenarios_cut_short", 0) + skipped
        if traces and len(self.samples) < 3:
            t = traces[len(traces) // 2]
            self.samples.append({"module": module, "events": t[:4]})

    def violate(self, replay, ev, trace):
        for f in self.findings:
            if all(ev.get(k) == v for k, v in f["event"].items()) and all(trace[0].get(k) == v for k, v in f.get("scenario", {}).items()):
                self.known.append(f["what"])
                return
        self.violations.append((replay, ev))

    # -- outcome --------------------------------------------------------------
    def count_kinds(self, traces, key=lambda e: e["e"]):
        c = self.detail.setdefault("event_kinds", {})
        for t in traces:
            for ev in t:
                k = key(ev)
                c[k] = c.get(k, 0) + 1

    def finish(self, level="model_checking", assumptions=()):
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level,
              "coverage": {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.validated,
                           "events_validated": self.events, "samples": self.samples[:3], **self.detail},
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations), "assumptions": list(assumptions)}
        with open(os.path.join(EVID, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for w in sorted(set(self.known)):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, w))
        if self.violations:
            rd = os.path.join(EVID, "replay")
            os.makedirs(rd, exist_ok=True)
            p = os.path.join(rd, "%s-%s-%d.json" % (self.prop, self.tier, self.seed))
            with open(p, "w") as f:
                json.dump([v[0] for v in self.violations[:60]], f, indent=1)
            for r, ev in self.violations[:5]:
                print("  mismatch: " + json.dumps(ev)[:600])
            print("VIOLATION property=%s replay=%s" % (self.prop, p))
            return 1
        print("OK property=%s states=%d traces=%d events=%d wall=%.1fs" % (self.prop, self.states, self.validated, self.events, time.time() - self.t0))
        return 0

    def cleanup(self):
        shutil.rmtree(self.work, ignore_errors=True)


def load_findings(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [f for f in json.load(open(p))["open"] if f["property"] == prop]
