"""Shared machinery: scratch space, builds of the compiler under test, verdicts, evidence."""
import atexit, concurrent.futures, glob, hashlib, json, os, random, re, resource, shutil
import signal, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("UMLCC_REPO", "/repo")
RT = os.path.join(VERIF, "rt")
JOBS = max(2, min(16, os.cpu_count() or 4))
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
try:
    SEED = int(os.environ.get("VERIF_SEED", "1"))
except ValueError:
    SEED = int(hashlib.sha256(os.environ["VERIF_SEED"].encode()).hexdigest()[:8], 16)


class HarnessError(Exception):
    """The check itself could not do its work (no verdict)."""


_scratch = None


def scratch():
    """One scratch directory per run, removed at exit."""
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="umlcc-verif-")
        atexit.register(shutil.rmtree, _scratch, True)
    return _scratch


def subdir(name):
    d = os.path.join(scratch(), name)
    os.makedirs(d, exist_ok=True)
    return d


def rng(*key):
    return random.Random("%d/%s" % (SEED, "/".join(str(k) for k in key)))


def tier(quick, thorough):
    return thorough if TIER == "thorough" else quick


def _limits(cpu, mem, fsize):
    def f():
        if cpu:
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 1))
        if mem:
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
        if fsize:
            resource.setrlimit(resource.RLIMIT_FSIZE, (fsize, fsize))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return f


class Result:
    __slots__ = ("rc", "out", "err", "timeout")

    def __init__(self, rc, out, err, timeout):
        self.rc, self.out, self.err, self.timeout = rc, out, err, timeout


def run(cmd, timeout=60, cpu=None, mem=None, fsize=None, env=None, cwd=None, stdin=None):
    """Run a command. A negative rc is a signal; timeout is reported separately."""
    e = None
    if env is not None:
        e = dict(os.environ)
        e.update(env)
    pre = _limits(cpu, mem, fsize) if (cpu or mem or fsize) else None
    p = subprocess.Popen(cmd, stdin=subprocess.DEVNULL if stdin is None else subprocess.PIPE,
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, cwd=cwd,
                         preexec_fn=pre, start_new_session=True)
    try:
        out, err = p.communicate(stdin, timeout=timeout)
        return Result(p.returncode, out, err, False)
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, err = p.communicate()
        return Result(p.returncode, out, err, True)


def pmap(fn, items, jobs=JOBS):
    items = list(items)
    if not items:
        return []
    with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
        return list(ex.map(fn, items))


def must(cmd, what, timeout=300, cwd=None):
    r = run(cmd, timeout=timeout, cwd=cwd)
    if r.timeout or r.rc != 0:
        raise HarnessError("%s failed (rc=%s): %s\n%s" %
                           (what, r.rc, " ".join(cmd)[:300], r.err.decode("utf-8", "replace")[-3000:]))
    return r


# ---------------------------------------------------------------- builds

def sources(with_main=True):
    src = sorted(glob.glob(os.path.join(REPO, "src", "**", "*.c"), recursive=True))
    if not src:
        raise HarnessError("no sources under %s/src" % REPO)
    main = os.path.join(REPO, "src", "main.c")
    if not with_main:
        src = [s for s in src if s != main]
    return src


VARIANTS = {
    # the way the repository builds it
    "plain": ("gcc", ["-O3"], []),
    # address + undefined behaviour sanitizers, every report fatal
    "asan": ("clang", ["-O1", "-g", "-fno-omit-frame-pointer",
                       "-fsanitize=address,undefined", "-fno-sanitize=function", "-fno-sanitize-recover=all"],
             ["-fsanitize=address,undefined"]),
    "msan": ("clang", ["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=memory",
                       "-fsanitize-memory-track-origins=1", "-fno-sanitize-recover=all"],
             ["-fsanitize=memory"]),
    # every function entry is an event: a load-independent measure of work
    "steps": ("gcc", ["-O1", "-finstrument-functions"], []),
    # gcov-free edge coverage for the mutation engine
    "cov": ("clang", ["-O1", "-fsanitize-coverage=trace-pc-guard"], []),
}


def build(variant, with_main=True, extra=(), name=None):
    """Build the compiler from the working tree; returns the path of the binary
    (with_main) or the list of object files (not with_main)."""
    cc, cflags, lflags = VARIANTS[variant]
    d = subdir("build-%s%s" % (variant, "" if with_main else "-lib"))
    objs = []
    jobs = []
    for s in sources(with_main):
        o = os.path.join(d, os.path.relpath(s, REPO).replace("/", "_") + ".o")
        objs.append(o)
        jobs.append([cc, "-std=c99", "-w"] + cflags + ["-c", s, "-o", o])
    for r, j in zip(pmap(lambda c: run(c, timeout=300), jobs), jobs):
        if r.rc != 0:
            raise HarnessError("cannot build: %s\n%s" % (" ".join(j), r.err.decode("utf-8", "replace")[-2000:]))
    if not with_main:
        return objs
    # sanitizer coverage / instrumentation hooks are compiled without the instrumentation
    exe = os.path.join(d, name or "umlcc")
    must([cc] + lflags + objs + list(extra) + ["-o", exe], "link")
    return exe


def cc_obj(src, obj, cc="gcc", flags=("-O1",)):
    must([cc] + list(flags) + ["-c", src, "-o", obj], "compile %s" % os.path.basename(src))
    return obj


# ---------------------------------------------------------------- verdicts

def load_findings():
    with open(os.path.join(VERIF, "known_findings.json")) as f:
        return json.load(f)["findings"]


class Check:
    """Collects verdicts and what was observed, writes evidence, exits."""

    def __init__(self, prop, rule, level="exploration", assumptions=None):
        self.prop, self.rule, self.level = prop, rule, level
        self.assumptions = assumptions or []
        self.t0 = time.time()
        self.evaluations = 0
        self.distinct = set()
        self.samples = []
        self.counts = {}
        self.violations = []
        self.known = []
        self.inconclusive = 0
        self.lock = threading.Lock()
        self.vdir = os.path.join(VERIF, "replays", prop)
        shutil.rmtree(self.vdir, ignore_errors=True)

    def count(self, key, n=1):
        with self.lock:
            self.counts[key] = self.counts.get(key, 0) + n

    def observe(self, key, n=1):
        """One evaluated case; `key` identifies it for distinctness (None: trivial)."""
        with self.lock:
            self.evaluations += n
            if key is not None:
                self.distinct.add(hashlib.blake2b(str(key).encode("utf-8", "replace"), digest_size=8).digest())

    def sample(self, text, limit=4):
        with self.lock:
            if len(self.samples) < limit:
                self.samples.append(str(text)[:1500])

    def violation(self, what, files=None, key=None):
        """files: {name: content} written as the replay directory."""
        with self.lock:
            k = key or what
            if any(v["key"] == k for v in self.violations):
                self.counts["violations_deduplicated"] = self.counts.get("violations_deduplicated", 0) + 1
                return
            n = len(self.violations)
            if n >= 20:
                self.counts["violations_not_written"] = self.counts.get("violations_not_written", 0) + 1
                return
            d = os.path.join(self.vdir, "v%03d" % n)
            os.makedirs(d, exist_ok=True)
            with open(os.path.join(d, "what.txt"), "w") as f:
                f.write("property %s\nseed %d tier %s\n%s\n" % (self.prop, SEED, TIER, what))
            for name, content in (files or {}).items():
                mode = "wb" if isinstance(content, bytes) else "w"
                with open(os.path.join(d, name), mode) as f:
                    f.write(content)
            self.violations.append({"key": k, "what": what[:2000], "replay": d})
            print("VIOLATION property=%s replay=%s" % (self.prop, d), flush=True)
            print("  " + what.replace("\n", "\n  ")[:500], flush=True)

    def known_finding(self, ident, what):
        with self.lock:
            if ident in self.known:
                return
            self.known.append(ident)
        print("KNOWN-FINDING: property=%s %s: %s" % (self.prop, ident, what), flush=True)

    def finish(self, min_evaluations=1):
        wall = time.time() - self.t0
        ev = {
            "property": self.prop, "tier": TIER, "seed": SEED, "level": self.level,
            "coverage": {
                "evaluations": self.evaluations,
                "distinct_nontrivial": len(self.distinct),
                "rule": self.rule,
                "samples": self.samples,
                "observed": dict(sorted(self.counts.items())),
                "inconclusive": self.inconclusive,
                "known_findings_seen": self.known,
                "violation_details": [{"what": v["what"], "replay": v["replay"]} for v in self.violations],
            },
            "violations": len(self.violations),
            "assumptions": self.assumptions,
            "wall_s": round(wall, 2),
        }
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        if self.violations:
            print("%s: %d violation(s) in %d evaluations, %.1fs" %
                  (self.prop, len(self.violations), self.evaluations, wall))
            sys.exit(1)
        if self.evaluations < min_evaluations:
            print("%s: observed too little (%d evaluations): no verdict" % (self.prop, self.evaluations))
            sys.exit(3)
        print("%s: held on %d evaluations (%d distinct), %d inconclusive, %.1fs" %
              (self.prop, self.evaluations, len(self.distinct), self.inconclusive, wall))
        print("  observed: " + json.dumps(dict(sorted(self.counts.items()))))
        sys.exit(0)


def main(fn):
    try:
        fn()
    except HarnessError as e:
        print("HARNESS ERROR (no verdict): %s" % e, file=sys.stderr)
        sys.exit(2)
