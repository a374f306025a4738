"""Shared machinery of the checks: build, TLC, replay, verdicts, evidence."""
import atexit, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
SPEC = os.path.join(ROOT, "spec")
TLA = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = os.cpu_count() or 4

ENV = dict(os.environ)
ENV.setdefault("HOME", "/root")
ENV["PATH"] = "/root/.cargo/bin:" + ENV.get("PATH", "/usr/bin:/bin")
ENV.update(RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
           RUSTC_WRAPPER="", CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only")


class ToolError(Exception):
    pass


class Check:
    """One run of one property's check."""

    def __init__(self, prop, tier, seed, level="model_checking"):
        self.prop, self.tier, self.seed, self.level = prop, tier, seed, level
        self.t0 = time.time()
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.assumptions = []
        self.violations = []      # (key, description, data)
        self.vh = None
        base = os.path.join(ROOT, "work")
        os.makedirs(base, exist_ok=True)
        self.dir = tempfile.mkdtemp(prefix=prop + "-", dir=base)
        atexit.register(lambda: shutil.rmtree(self.dir, ignore_errors=True))

    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough() else quick

    def path(self, name):
        return os.path.join(self.dir, name)

    def left(self):
        """Seconds left of this tier's budget."""
        return self.pick(600, 7200) - (time.time() - self.t0)

    def log(self, *a):
        print("[%s %5.1fs]" % (self.prop, time.time() - self.t0), *a, flush=True)

    def count(self, key, n=1):
        self.cov[key] = self.cov.get(key, 0) + n

    def sample(self, s, limit=6):
        if len(self.cov["samples"]) < limit:
            self.cov["samples"].append(s)

    def violation(self, key, what, data=None):
        self.violations.append((key, what, data))

    # ---- building -----------------------------------------------------------------
    def build(self, features=None):
        """The harness, with the crate's default features or the optional ones given; once only."""
        if self.vh:
            return
        t = time.time()
        args = [] if features is None else ["--no-default-features", "--features", ",".join(features)]
        r = subprocess.run(["cargo", "build", "--offline", "--quiet"] + args, cwd=os.path.join(ROOT, "harness"), env=ENV,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=800)
        if r.returncode != 0:
            raise ToolError("the harness does not build:\n" + r.stdout[-3000:])
        self.vh = os.path.join(ROOT, "harness/target/debug/vh")
        if features is not None:
            self.vh = shutil.copy(self.vh, self.path("vh-" + "-".join(["with"] + list(features))))
        self.log("built in %.1fs" % (time.time() - t))

    def harness(self, *args, out=None, timeout=600, ok=(0,)):
        """Runs the harness; stdout goes to the file `out` or is returned."""
        f = open(out, "w") if out else subprocess.PIPE
        r = subprocess.run([self.vh] + [str(a) for a in args], env=ENV, stdout=f, stderr=subprocess.PIPE, timeout=timeout)
        if out:
            f.close()
        if r.returncode not in ok:
            raise ToolError("vh %s: exit %s\n%s" % (" ".join(map(str, args)), r.returncode, r.stderr.decode(errors="replace")[-2000:]))
        return None if out else r.stdout.decode()

    def real(self, cases, limit=20, procs=CORES, cmd=None):
        """Runs the cases in the shipped contexts; a case that hangs or kills the process gets res = "hang" or "abort"."""
        def batch(cs):
            res, todo = [], cs
            while todo:
                inp = "".join(json.dumps(x) + "\n" for x in todo)
                try:
                    r = subprocess.run(cmd or [self.vh, "real", str(limit)], env=ENV, input=inp.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=900)
                except subprocess.TimeoutExpired:
                    raise ToolError("vh real never ends")
                got = [json.loads(l) for l in r.stdout.decode().split("\n") if l.endswith("}")]
                res += got
                if r.returncode == 0 and len(got) == len(todo):
                    break
                bad = dict(todo[len(got)])
                if "case" in r.stderr.decode(errors="replace") and r.returncode == 101:
                    raise ToolError("vh real: " + r.stderr.decode(errors="replace")[-500:])
                bad["res"], bad["ms"] = "hang" if r.returncode == 42 else "abort", limit * 1000
                res.append(bad)
                todo = todo[len(got) + 1:]
            return res
        k = max(1, min(procs, len(cases) // 50 + 1))
        parts = [cases[len(cases) * i // k:len(cases) * (i + 1) // k] for i in range(k)]
        with ThreadPoolExecutor(k) as ex:
            return [x for r in ex.map(batch, parts) for x in r]

    # ---- TLC ----------------------------------------------------------------------
    def tlc(self, module, invariants, consts=None, env=None, workers=CORES, mem="8g", timeout=None, init="Init", next_="Next", extra="",
            spec=None, properties=(), args=()):
        """Runs TLC on spec/<module>.tla; returns its statistics and printed BAD lines."""
        timeout = timeout or max(60, self.left())
        tag = "%s-%d" % (module, int(time.time() * 1e6) % 10**10)
        cfg = self.path(tag + ".cfg")
        with open(cfg, "w") as f:
            if consts:
                f.write("CONSTANTS\n")
                for k, v in consts.items():
                    f.write("  %s = %s\n" % (k, tla(v)))
            f.write("SPECIFICATION %s\n" % spec if spec else "INIT %s\nNEXT %s\n" % (init, next_))
            if invariants:
                f.write("INVARIANTS %s\n" % " ".join(invariants))
            if properties:
                f.write("PROPERTIES %s\n" % " ".join(properties))
            f.write(extra + "\nCHECK_DEADLOCK FALSE\n")
        meta = self.path(tag + ".meta")
        e = dict(ENV)
        e.update({k: str(v) for k, v in (env or {}).items()})
        cmd = ["java", "-Xss256m", "-Xmx" + mem, "-XX:+UseParallelGC"] + (["-XX:ParallelGCThreads=2"] if workers == 1 else []) + [
               "-Dfile.encoding=UTF-8", "-Dstdout.encoding=UTF-8", "-cp", TLA, "tlc2.TLC", "-workers", str(workers), "-metadir", meta,
               "-noGenerateSpecTE", "-config", cfg] + list(args) + [module + ".tla"]
        try:
            r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError("TLC ran out of time on " + module)
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        txt = r.stdout.decode(errors="replace")
        lines = [x for x in txt.splitlines() if not re.match(r"(Semantic processing|Linting|Parsing file)", x)]
        res = {"text": "\n".join(lines), "rc": r.returncode, "bad": [], "prints": []}
        for x in lines:
            x = x.strip().strip('"')
            m = re.match(r"BAD (\d+) ?(.*)$", x)
            if m:
                res["bad"].append((int(m.group(1)), m.group(2).replace('\\"', "").replace('"', "")))
            elif x.startswith("NOTE "):
                res["prints"].append(x[5:])
        m = re.search(r"(\d+) states generated.*?(\d+) distinct states found, (\d+) states left", txt)
        if m:
            res["generated"], res["distinct"] = int(m.group(1)), int(m.group(2))
        if r.returncode != 0 or "No error has been found" not in txt:
            if r.returncode == 12 or r.returncode == 13:      # an invariant or property of the model
                res["failed"] = True
                return res
            raise ToolError("TLC failed on %s (exit %s):\n%s" % (module, r.returncode, "\n".join(lines)[-3500:]))
        return res

    def model(self, module, invariants, **kw):
        """Model checking proper: a violated invariant means the specification itself is wrong."""
        r = self.tlc(module, invariants, **kw)
        if r.get("failed"):
            raise ToolError("the specification %s violates its own invariant:\n%s" % (module, r["text"][-3500:]))
        self.count("states", r["distinct"])
        self.count("transitions", max(0, r["generated"] - 1))
        return r

    def validate(self, module, trace, consts=None, env=None, invariants=("Conforms",), groups=None, shards=CORES, mem="3g"):
        """Trace validation: the records of `trace` (ndjson) are split over TLC processes.
        `groups`: a function that tells the lines at which a new behaviour begins."""
        lines = [l for l in open(trace) if l.strip()]
        if not lines:
            raise ToolError("empty trace " + trace)
        n = len(lines)
        shards = max(1, min(shards, n // 20 + 1))
        cuts = [n * k // shards for k in range(shards + 1)]
        if groups:
            starts = [i for i, l in enumerate(lines) if groups(l)] + [n]
            cuts = [0] + [next(s for s in starts if s >= c) for c in cuts[1:]]
        files = []
        for k in range(shards):
            if cuts[k] < cuts[k + 1]:
                p = "%s.%d" % (trace, k)
                with open(p, "w") as f:
                    f.writelines(lines[cuts[k]:cuts[k + 1]])
                files.append((p, cuts[k], cuts[k + 1] - cuts[k]))

        def one(x):
            p, off, cnt = x
            e = dict(env or {})
            e["VH_TRACE"] = p
            r = self.tlc(module, list(invariants), consts=consts, env=e, workers=1, mem=mem)
            if r.get("failed"):
                raise ToolError("TLC on %s: %s" % (module, r["text"][-3000:]))
            r["bad"] = [(off + i - 1, w) for i, w in r["bad"]]
            r["records"] = cnt
            return r
        with ThreadPoolExecutor(len(files)) as ex:
            rs = list(ex.map(one, files))
        bad = sorted(b for r in rs for b in r["bad"])
        got = sum(r["distinct"] for r in rs)
        self.count("states", got)
        self.count("transitions", sum(max(0, r["generated"] - 1) for r in rs))
        if got < n:
            raise ToolError("%s consumed %d of %d records" % (module, got, n))
        notes = [p for r in rs for p in r["prints"]]
        return lines, bad, notes

    # ---- the end ------------------------------------------------------------------
    def finish(self):
        known = load_known(self.prop)
        shown, fresh = set(), []
        for key, what, data in self.violations:
            if key in known:
                shown.add(key)
            else:
                fresh.append((key, what, data))
        for key, what in sorted(known.items()):
            print("KNOWN-FINDING: property=%s %s%s" % (self.prop, what, "" if key in shown else " (did not happen in this run)"))
        self.cov["samples"] = self.cov["samples"][:12] or ["none"]
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": self.cov,
              "assumptions": self.assumptions, "violations": len(fresh), "wall_s": round(time.time() - self.t0, 2)}
        with open(os.path.join(ROOT, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=False)
        if fresh:
            rp = os.path.join(ROOT, "work", "replay-%s-%s.json" % (self.prop, self.tier))
            with open(rp, "w") as f:
                json.dump([{"key": k, "what": w, "data": d} for k, w, d in fresh[:50]], f, indent=1, ensure_ascii=False)
            for k, w, _ in fresh[:8]:
                self.log("violated:", w[:1500])
            if len(fresh) > 8:
                self.log("... %d more" % (len(fresh) - 8))
            print("VIOLATION property=%s replay=%s" % (self.prop, rp), flush=True)
            return 1
        self.log("held on everything explored: %s" % json.dumps({k: v for k, v in self.cov.items() if k != "samples"}))
        return 0


def load_known(prop):
    """Lines `finding: property=<id> key=<key> <what fails>`; `fixed:` lines suppress nothing."""
    out = {}
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)$", l.strip())
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3)
    return out


def tla(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return '"%s"' % v
    if isinstance(v, (set, frozenset)):
        return "{%s}" % ", ".join(sorted(tla(x) for x in v))
    if isinstance(v, (list, tuple)):
        return "<<%s>>" % ", ".join(tla(x) for x in v)
    raise TypeError(v)


def text(v):
    """The text of a sequence of characters as the specification holds it."""
    return "".join(chr(int(c[2:], 16)) if len(c) > 2 and c.startswith("U+") else c for c in v)


def chars(s):
    return [c if " " <= c <= "~" else "U+%04X" % ord(c) for c in s]


def write_lines(path, items):
    with open(path, "w") as f:
        for i in items:
            f.write(json.dumps(i, ensure_ascii=False) + "\n")
