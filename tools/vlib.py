"""Shared machinery of the checks: building, driving, TLC runs, verdicts."""
import json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
import build as B

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(HERE, "spec")
EVID = os.path.join(HERE, "evidence")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = 8


class CheckError(Exception):
    """The check itself failed; says nothing about the property."""


class Violation(Exception):
    def __init__(self, text, replay):
        Exception.__init__(self, text)
        self.text, self.replay = text, replay


class TlcResult:
    def __init__(self):
        self.ok = False
        self.generated = self.distinct = self.depth = 0
        self.out = ""
        self.rejected = False   # the postcondition (trace acceptance) failed
        self.violated = None    # an invariant or property was violated
        self.error = None
        self.cases = []


def tlc(work, module, cfg_text, env=None, workers=1, heap="2g", timeout=800, simulate=None, tag="t", extra=()):
    d = tempfile.mkdtemp(prefix="tlc-", dir=work)
    cfg = os.path.join(d, module + ".cfg")
    with open(cfg, "w") as f:
        f.write(cfg_text)
    cmd = ["java", "-Xss128m", "-Xmx" + heap, "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2",
           "-XX:TieredStopAtLevel=4", "-Djava.io.tmpdir=" + d, "-cp", JARS, "tlc2.TLC", "-workers", str(workers),
           "-metadir", os.path.join(d, "md"), "-config", cfg, "-noGenerateSpecTE"]
    if simulate:
        cmd += ["-simulate", simulate]
    cmd += list(extra)
    cmd.append(os.path.join(SPEC, module + ".tla"))
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, timeout=timeout)
        out = p.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired:
        raise CheckError("TLC timed out on %s" % module)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    r = TlcResult()
    r.out = out
    keep = []
    for line in out.splitlines():
        if line.startswith('"CASE '):
            r.cases.append(line)
        else:
            keep.append(line)
    text = "\n".join(keep)
    r.out = text
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", text)
    if m:
        r.generated, r.distinct = [int(x.replace(",", "")) for x in m[-1]]
    m = re.findall(r"The depth of the complete state graph search is (\d+)", text)
    if m:
        r.depth = int(m[-1])
    if "Model checking completed. No error has been found" in text and "Postcondition" not in text \
            and "POSTCONDITION" not in text:
        r.ok = True
    elif re.search(r"(?i)postcondition", text) and not re.search(r"Error: (?!.*(?i:postcondition))", text):
        r.rejected = True
    else:
        m = re.search(r"(?:Invariant|Action property|Temporal properties|Property) ?(\w*) ?(?:is|were) violated", text)
        if m:
            r.violated = m.group(1) or "property"
        else:
            r.error = text[-3000:]
    return r


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier == "quick"
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        self.states = self.transitions = self.traces = self.events = 0
        self.samples = []
        self.extra = {}
        self.assumptions = []
        self.known = []

    def pick(self, quick, thorough):
        return quick if self.quick else thorough

    def log(self, *a):
        print("[%6.1f] " % (time.time() - self.t0) + " ".join(str(x) for x in a), flush=True)

    # ------------------------------------------------------------- build
    def build(self, drivers, **kw):
        try:
            r = B.build(self.work, drivers, **kw)
        except B.BuildError as e:
            raise CheckError("build failed:\n" + str(e))
        self.log("built", ", ".join(drivers))
        return r

    def python(self):
        try:
            r = B.python(self.work)
        except B.BuildError as e:
            raise CheckError("build failed:\n" + str(e))
        self.log("built the Python module")
        return r

    def sh(self, cmd, timeout=800, env=None, ok=(0,)):
        e = dict(os.environ)
        e["ASAN_OPTIONS"] = "detect_leaks=0:exitcode=99:abort_on_error=0:allocator_may_return_null=1"
        e["OMP_NUM_THREADS"] = e.get("OMP_NUM_THREADS", "2")
        e.update(env or {})
        try:
            p = subprocess.run([str(c) for c in cmd], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e,
                               timeout=timeout, cwd=self.work)
        except subprocess.TimeoutExpired:
            raise CheckError("timeout: " + " ".join(map(str, cmd)))
        if p.returncode not in ok:
            raise CheckError("driver failed (%d): %s\n%s" % (p.returncode, " ".join(map(str, cmd)),
                                                          p.stdout.decode(errors="replace")[-3000:]))
        return p.returncode

    # ------------------------------------------------------------- model
    def model(self, module, cfg, env=None, workers=CORES, heap="4g", timeout=800, count=True, min_states=2):
        r = tlc(self.work, module, cfg, env, workers, heap, timeout)
        if not r.ok:
            raise CheckError("model %s: %s\n%s" % (module, r.violated or r.rejected or r.error, r.out[-4000:]))
        if r.distinct < min_states:
            raise CheckError("model %s explored only %d states" % (module, r.distinct))
        if count:
            self.states += r.distinct
            self.transitions += r.generated
        self.log("model", module, "%d distinct / %d generated" % (r.distinct, r.generated))
        return r

    def refuted(self, module, cfg, **kw):
        """A model of something known to be wrong: TLC has to find the error."""
        r = tlc(self.work, module, cfg, kw.get("env"), CORES, "4g", 800)
        if not r.violated:
            raise CheckError("model %s was expected to fail: %s" % (module, r.out[-3000:]))
        self.log("model", module, "refuted as expected:", r.violated)

    # ------------------------------------------------------------ traces
    def keep(self, path, lines=None):
        d = os.path.join(EVID, "replay")
        os.makedirs(d, exist_ok=True)
        dst = os.path.join(d, "%s-%s-seed%d-%s" % (self.prop, self.tier, self.seed, os.path.basename(path)))
        with open(path) as f, open(dst, "w") as g:
            for n, l in enumerate(f):
                if lines is not None and n >= lines:
                    break
                g.write(l)
        return dst

    def accept(self, module, path, focus=None, env=None, heap="2g", cfg=None):
        e = {"TRACE": path, "FOCUS": focus or self.prop}
        e.update(env or {})
        cfg = cfg or "SPECIFICATION Spec\nPOSTCONDITION Accepted\nCHECK_DEADLOCK FALSE\n"
        r = tlc(self.work, module, cfg, e, 1, heap)
        # recorded values for which a condition has no value (beyond the range of the arithmetic, outside
        # the domain of a function) do not satisfy it
        if r.error and r.depth and "error occurred when TLC was evaluating" in r.out \
                and "StackOverflow" not in r.out and "OutOfMemory" not in r.out:
            r.rejected, r.error = True, None
        return r

    def conform(self, module, jobs, focus=None, env=None, count="end", heap="2g", parallel=CORES, serial=False):
        """jobs: list of (name, command with OUT placeholder).  Drive, then let
        the specification judge each recorded trace.  A rejection is reported
        only if driving and judging once more repeats it."""
        def one(job):
            name, cmd = job
            path = os.path.join(self.work, name + ".ndjson")
            full = [path if c == "OUT" else c for c in cmd]
            self.sh(full, env={"OMP_NUM_THREADS": "1"} if serial else None)
            r = self.accept(module, path, focus, env, heap)
            n = 0
            ends = 0
            sample = None
            with open(path) as f:
                for l in f:
                    n += 1
                    if '"op":"%s"' % count in l:
                        ends += 1
                    elif sample is None or n == 5:
                        sample = l[:300].rstrip()
            for k in r.cases:
                if k.startswith('"CASE known '):
                    self.found(k[12:].rstrip('"'))
            return name, full, path, r, n, ends, sample
        with ThreadPoolExecutor(parallel) as ex:
            res = list(ex.map(one, jobs))
        for name, full, path, r, n, ends, sample in sorted(res, key=lambda x: bool(x[3].error)):
            if r.error:
                kept = self.keep(path)
                raise CheckError("specification could not judge %s:\n%s\nkept %s" % (name, r.error, kept))
            if r.rejected or r.violated:
                at = r.depth
                with open(path) as f:
                    lines = f.read().splitlines()
                bad = lines[at - 1] if 0 < at <= len(lines) else ""
                first = self.keep(path, at)
                for again in range(3):
                    self.sh(full, env={"OMP_NUM_THREADS": "1"} if serial else None)
                    r2 = self.accept(module, path, focus, env, heap)
                    if not r2.ok:
                        break
                if r2.ok:
                    raise CheckError("rejection of %s (event %d) was not repeated: %s" % (name, at, bad[:400]))
                with open(first + ".cmd", "w") as f:
                    f.write("# trace module %s, focus %s, event %d\n%s\n" % (module, focus or self.prop, at,
                                                                         " ".join(map(str, full))))
                raise Violation("%s rejects event %d of %s: %s" % (module, at, name, bad[:600]), first)
            self.traces += ends
            self.events += n
            if sample and len(self.samples) < 6:
                self.samples.append(sample)
        self.log("accepted by", module, ":", len(res), "files,", sum(x[4] for x in res), "events")

    def found(self, what):
        """A deviation the specification recognises; it must be listed."""
        key = what.split()[0]
        with open(os.path.join(HERE, "known_findings.txt")) as f:
            listed = [l for l in f if l.startswith("known: property=%s %s " % (self.prop, key))]
        if not listed:
            raise CheckError("unlisted finding " + what)
        text = listed[0].split(" ", 2)[2].strip()
        if text not in self.known:
            self.known.append(text)
            self.samples.append("known finding met: " + what)

    # ------------------------------------------------------------ results
    def evidence(self, violations, status):
        os.makedirs(EVID, exist_ok=True)
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "trace_events": self.events,
               "samples": self.samples or [status]}
        cov.update(self.extra)
        with open(os.path.join(EVID, self.prop + ".json"), "w") as f:
            json.dump({"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
                       "coverage": cov, "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
                       "violations": violations}, f, indent=1)


def main(checks):
    if len(sys.argv) < 2 or sys.argv[1] not in checks:
        print("usage: run.py PROPERTY [quick|thorough]; known: " + " ".join(sorted(checks)))
        sys.exit(2)
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1") % 1000000007
    ctx = Ctx(prop, tier, seed)
    code = 2
    try:
        checks[prop](ctx)
        ctx.evidence(0, "held")
        for k in ctx.known:
            print("KNOWN-FINDING: property=%s %s" % (prop, k))
        print("HELD property=%s states=%d traces=%d events=%d wall=%.1fs" % (
            prop, ctx.states, ctx.traces, ctx.events, time.time() - ctx.t0))
        code = 0
    except Violation as v:
        ctx.evidence(1, "violated: " + v.text)
        print(v.text)
        print("VIOLATION property=%s replay=%s" % (prop, v.replay))
        code = 1
    except CheckError as e:
        ctx.evidence(0, "error of the check")
        print("CHECK ERROR: %s" % e)
        code = 2
    finally:
        shutil.rmtree(ctx.work, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(code)
