"""C07: the compiler is free of memory errors and undefined behaviour on any input."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "gen"))
from common import *
import inputs, c17

SAN = {"asan": ["-fsanitize=address,undefined", "-fno-sanitize=function"], "msan": ["-fsanitize=memory"], "plain": []}
CFL = {"asan": ["-O1", "-g"], "msan": ["-O1", "-g"], "plain": ["-O3"]}
ENV = {"ASAN_OPTIONS": "detect_leaks=0:exitcode=99:quarantine_size_mb=16:malloc_context_size=8:detect_stack_use_after_return=0:allocator_may_return_null=1",
       "UBSAN_OPTIONS": "exitcode=99:print_stacktrace=1", "MSAN_OPTIONS": "exitcode=99:malloc_context_size=8:poison_in_dtor=0:allocator_may_return_null=1"}


def driver(kind):
    """the compiler with its main renamed, inside a driver which forks once per input"""
    d = subdir("c07-" + kind)
    cc = "gcc" if kind == "plain" else "clang"
    flags = SAN[kind] + CFL[kind] + ([] if kind == "plain" else ["-fno-sanitize-recover=all", "-fno-omit-frame-pointer"])
    if kind == "asan":
        flags = flags + ["-fsanitize-coverage=trace-pc-guard"]
    jobs, objs = [], []
    for s in sources():
        o = os.path.join(d, os.path.relpath(s, REPO).replace("/", "_") + ".o")
        objs.append(o)
        jobs.append([cc, "-std=c99", "-w"] + flags + ["-Dmain=umlcc_main", "-c", s, "-o", o])
    for r, j in zip(pmap(lambda c: run(c, timeout=300), jobs), jobs):
        if r.rc != 0:
            raise HarnessError("cannot build: %s\n%s" % (" ".join(j), r.err.decode("utf-8", "replace")[-2000:]))
    drv = os.path.join(d, "driver.o")
    must([cc, "-w", "-O1", "-c", os.path.join(RT, "driver.c"), "-o", drv], "driver")
    exe = os.path.join(d, "driver")
    must([cc] + SAN[kind] + objs + [drv, "-Wl,--wrap=exit", "-o", exe], "link driver")
    return exe


def headline(err):
    for l in err.split("\n"):
        if "runtime error" in l or "ERROR: " in l or "WARNING: MemorySanitizer" in l:
            return re.sub(r"==\d+==", "", l.strip())
    return ""


def where(err):
    fr = re.findall(r"#\d+ 0x[0-9a-f]+ in (\w+) \S*/src/(\S+)", err)
    return fr[0] if fr else ("", "")


def function_types(ck, progs):
    """calls through pointers of another type: the one known kind is reported as such, others are violations"""
    VARIANTS["fnptr"] = ("clang", ["-O1", "-g", "-fsanitize=function"], ["-fsanitize=function"])
    exe = build("fnptr")
    known = {t: f for f in load_findings() if f["property"] == "C07" for t in f.get("pointer_types", [])}
    d = subdir("c07-fnptr-in")

    def one(job):
        i, t = job
        p = os.path.join(d, "p%d.c" % i)
        with open(p, "w", encoding="latin-1") as f:
            f.write(t)
        return run([exe, p], timeout=100)
    for (i, t), r in zip(enumerate(progs), pmap(one, list(enumerate(progs)))):
        if r.timeout:
            ck.inconclusive += 1
            continue
        ck.observe(("fnptr", t))
        err = r.err.decode("latin-1")
        for l in err.split("\n"):
            m = re.search(r"call to function (\S+) through pointer to incorrect function type '(.*)'", l)
            if not m:
                continue
            ck.count("calls through generic element pointers reported")
            if m.group(2) in known:
                f = known[m.group(2)]
                ck.known_finding(f["id"], f["what"])
            else:
                ck.violation("call through a pointer of another type: %s" % l, {"input.c": t.encode("latin-1"), "report.txt": err}, key=m.group(0))


class Monitor:
    def __init__(self, ck):
        self.ck = ck
        self.n = 0

    def judge(self, exe, kind, items, cpu=60, label=None, stack=None):
        """items: (label, bytes).  Every run has to end with status 0 or 1 and no report."""
        ck = self.ck
        d = subdir("c07-in-%s-%d" % (kind, self.n))
        self.n += 1
        paths = []
        for i, (lab, b) in enumerate(items):
            p = os.path.join(d, "i%06d.c" % i)
            with open(p, "wb") as f:
                f.write(b if isinstance(b, bytes) else b.encode("latin-1", "replace"))
            paths.append(p)
        step = max(1, min(100, len(paths) // (JOBS * 2) + 1))
        chunks = [list(range(i, min(i + step, len(paths)))) for i in range(0, len(paths), step)]

        def one(ch):
            cmd = [exe, "list", str(cpu)]
            if stack:
                cmd = ["bash", "-c", "ulimit -s %d; exec \"$@\"" % stack, "x"] + cmd
            r = run(cmd, timeout=3000, env=ENV, stdin="".join(paths[i] + "\n" for i in ch).encode())
            return [tuple(int(x) for x in l.split()) for l in r.out.decode().split("\n") if l], r
        for ch, (res, r) in zip(chunks, pmap(one, chunks)):
            if len(res) != len(ch):
                raise HarnessError("driver ended early: %s" % r.err.decode("latin-1")[-500:])
            for k, st, rss in res:
                i = ch[k]
                lab, b = items[i]
                if st in (0, 1):
                    ck.observe((kind, b))
                    ck.count("%s: %s" % (kind, "accepted" if st == 0 else "refused"))
                    continue
                if st in (1000 + 24, 1000 + 9):
                    ck.inconclusive += 1
                    ck.count("%s: out of time" % kind)
                    continue
                with open(paths[i] + ".err", "rb") as f:
                    err = f.read().decode("latin-1")
                h = headline(err)
                if "allocation-size-too-big" in err or "out-of-memory" in err or "exceeds maximum supported size" in err:
                    ck.inconclusive += 1
                    continue
                fnm, at = where(err)
                ck.observe((kind, b))
                ck.violation("%s: the compiler ended with %s on %s: %s (in %s, %s)" % (
                    kind, "status %d" % st if st < 1000 else "signal %d" % (st - 1000), lab, h, fnm, at),
                    {"input.c": b if isinstance(b, bytes) else b.encode("latin-1", "replace"), "report.txt": err}, key=(kind, st, fnm, at.split(":")[0]))
        shutil.rmtree(d, True)


def check():
    ck = Check("C07", "one input given to the compiler built with address/undefined-behaviour, memory or no sanitizers; it has to "
               "end with status 0 or 1 and without a sanitizer report")
    m = Monitor(ck)
    exes = dict(zip(SAN, [driver(k) for k in SAN]))
    # 1. fixed families
    r = rng("c07")
    items = [("a valid program", inputs.valid(rng("c07v", i), i)) for i in range(tier(120, 1200))]
    valid = [t for _, t in items]
    cat = inputs.catalogue(r, tier(1, 4))
    r.shuffle(cat)
    items += [("an ill-formed program", t) for t in cat[:tier(1500, 20000)]]
    items += [("bytes", inputs.soup(r)) for _ in range(tier(800, 8000))]
    items += [("a literal", inputs.literal_soup(r)) for _ in range(tier(1200, 12000))]
    items += [("an opened nest", inputs.opened(r, r.choice([1, 2, 3, 5, 40, 300]))) for _ in range(tier(600, 5000))]
    items += [("the start of a program", inputs.truncated(r, r.choice(valid))) for _ in range(tier(500, 6000))]
    for i in range(tier(450, 5000)):
        q = rng("c07l", i)
        items.append(("a list with wrong elements", c17.listed(q, i)[0]))
        if i % 3 == 0:
            items.append(("wrong names", c17.named(q, i)[0]))
            items.append(("the rest after an error", c17.leftovers(q, i)[0]))
    items += [("one byte", bytes([i])) for i in range(256)] + [("no bytes", b"")]
    items += [("one byte in a program", b"int a; " + bytes([i]) + b" int b;") for i in range(256)]
    items += [("one byte in a string", b'char s[] = "a' + bytes([i]) + b'b"; int h(void) { return s[0] + \'' + bytes([i]) + b"'; }") for i in range(256)]
    m.judge(exes["asan"], "asan", items)
    m.judge(exes["msan"], "msan", items)
    function_types(ck, valid[:tier(40, 200)] + cat[:tier(40, 200)])
    # 2. nesting up to 300 levels (the sanitizers' stack frames are larger than the real ones: more stack for them)
    deep = []
    for name, f in inputs.NEST.items():
        for n in tier((2, 33, 300), (1, 2, 3, 7, 17, 33, 64, 65, 128, 150, 200, 256, 299, 300)):
            deep.append(("%d x %s" % (n, name), f(n)))
    m.judge(exes["asan"], "asan", deep, stack=262144)
    m.judge(exes["msan"], "msan", deep, stack=262144)
    m.judge(exes["plain"], "plain", deep + [x for x in items if x[0] == "an opened nest"], stack=8192)
    # 3. coverage-guided mutation
    d = subdir("c07-fuzz")
    seeds = []
    pick = [t for t in valid + [inputs.small(rng("c07w", i), i) for i in range(tier(150, 800))] if len(t) < 4000] + r.sample(cat, min(len(cat), tier(100, 400))) + [t for n, t in deep if n.startswith(("2 x", "3 x"))]
    for i, t in enumerate(pick):
        p = os.path.join(d, "seed%05d.c" % i)
        b = t.encode("latin-1", "replace")
        if len(b) > 5500:
            continue
        with open(p, "wb") as f:
            f.write(b)
        seeds.append(p)
    workers, n = 8, tier(5000, 60000)

    def fuzz(w):
        o = os.path.join(d, "w%d" % w)
        os.makedirs(o)
        mine = seeds[w::workers] + rng("c07s", w).sample(seeds, min(len(seeds), 30))
        res = run([exes["asan"], "fuzz", str(SEED * 100 + w), str(n), o], timeout=3000, env=ENV, stdin="".join(p + "\n" for p in mine).encode())
        try:
            st = json.loads(res.out.decode())
        except ValueError:
            raise HarnessError("fuzzing worker: rc=%s timeout=%s %s" % (res.rc, res.timeout, res.err.decode("latin-1")[-500:]))
        return o, st
    again = []
    found = []
    for o, st in pmap(fuzz, range(workers), jobs=workers):
        for k, v in st.items():
            if k in ("edges", "edges_seeds", "guards"):
                ck.counts["fuzz: " + k] = max(ck.counts.get("fuzz: " + k, 0), v)
            else:
                ck.count("fuzz: " + k, v)
        ck.observe(None, st["accepted"] + st["refused"])
        ck.inconclusive += st["timeouts"]
        for f in sorted(os.listdir(o)):
            if not f.endswith(".c"):
                continue
            with open(os.path.join(o, f), "rb") as h:
                b = h.read()
            if f.startswith("slow_"):
                if os.environ.get("KEEP_SLOW"):
                    shutil.copy(os.path.join(o, f), os.environ["KEEP_SLOW"])
                continue
            (found if f.startswith("fail_") else again).append(("a mutated program", b))
    if found:
        m.judge(exes["asan"], "asan", found)
        if not ck.violations:
            ck.count("fuzz: failures not reproduced", len(found))
            ck.inconclusive += len(found)
    r.shuffle(again)
    m.judge(exes["msan"], "msan", again[:tier(1500, 20000)])
    m.judge(exes["plain"], "plain", again[:tier(1500, 20000)], stack=8192)
    for t in again[:4]:
        ck.sample(t[1].decode("latin-1"))
    ck.finish(min_evaluations=3000)


if __name__ == "__main__":
    main(check)
