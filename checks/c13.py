"""C13: the output is a function of the source text alone."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "gen"))
from diff import *
from outcome import *
import common, inputs, illformed, lexgen
from scopegen import Scopes
from proggen import program

# builds of the compiler in which what was never written reads otherwise
common.VARIANTS["o0zero"] = ("clang", ["-O0", "-ftrivial-auto-var-init=zero"], [])
common.VARIANTS["o1pattern"] = ("clang", ["-O1", "-ftrivial-auto-var-init=pattern"], [])
common.VARIANTS["gcc-o1pattern"] = ("gcc", ["-O1", "-ftrivial-auto-var-init=pattern"], [])


def variations(r, bins, so, base):
    """[(what, how to run)] ; how: (binary, environment or None, wrap, directory, name, relative)"""
    out = []
    plain = bins["plain"]
    seeds = [r.randrange(1, 1 << 30) for _ in range(tier(2, 5))]
    for s in seeds:
        out.append(("heap seed %d" % s, plain, {"LD_PRELOAD": so, "HEAP_SEED": str(s)}, ()))
    out.append(("MALLOC_PERTURB_", plain, {"MALLOC_PERTURB_": str(r.randrange(1, 256))}, ()))
    out.append(("no thread cache", plain, {"GLIBC_TUNABLES": "glibc.malloc.tcache_count=0", "MALLOC_TOP_PAD_": "0"}, ()))
    out.append(("mmap for every block", plain, {"MALLOC_MMAP_THRESHOLD_": "1024", "MALLOC_MMAP_MAX_": "60000"}, ()))
    out.append(("empty environment", plain, None, ("env", "-i")))
    out.append(("large environment", plain, {"X%d" % i: "y" * r.randrange(200) for i in range(300)}, ()))
    out.append(("locale and time zone", plain, {"LC_ALL": r.choice(["C", "C.UTF-8", "de_DE.UTF-8", "ja_JP.eucJP", "tr_TR"]), "LANG": "C.UTF-8", "TZ": r.choice(["UTC", "Asia/Tokyo", "America/New_York"]), "HOME": "/nonexistent", "USER": "nobody", "TMPDIR": "/nonexistent",
                "CC": "x", "CFLAGS": "-O3", "DEBUG": "1", "VERBOSE": "1", "UMLCC_DEBUG": "1", "COLUMNS": "20", "NO_COLOR": "1", "TERM": "dumb"}, ()))
    for b in bins:
        if b != "plain":
            out.append(("build " + b, bins[b], {"ASAN_OPTIONS": "detect_leaks=0", "UBSAN_OPTIONS": "print_stacktrace=0"} if b == "asan" else {}, ()))
    out.append(("again", plain, {}, ()))
    return out


NAMES = ["a.c", "x" * 100 + ".c", "name with blank.c", "a.b.c", "9.c", "_.c", "-.c", "A.c", "main.c", "\xe9.c".encode("latin-1").decode("utf-8", "surrogateescape"), "..c.c", "z.s.c"]


def determinism(ck, bins, so, n):
    texts = []
    for i in range(n):
        r = rng("c13", i)
        x = i % 13
        if x < 5:
            t = inputs.valid(r, i)
        elif x < 7:
            t = inputs.small(r, i)
        elif x == 7:
            t = PRELUDE + Scopes(r, "_%d" % i).program()[0]
        elif x == 8:
            k = r.choice(list(inputs.NEST))
            t = inputs.NEST[k](r.choice([1, 2, 5, 20]))
        else:
            items = list(illformed.programs(rng("c13i", i // 300), 1))
            t = items[(i * 7) % len(items)][1]
            if r.random() < 0.3:
                t = inputs.soup(r)
        texts.append(as_bytes(t))
    top = subdir("c13")
    tick = [0]
    lock = threading.Lock()

    def one(i):
        r = rng("c13v", i)
        t = texts[i]
        with lock:
            tick[0] += 1
            d = os.path.join(top, "d%d" % tick[0], *(["sub" * r.randrange(1, 30)] * r.randrange(0, 3)))
        os.makedirs(d)
        cc = Compiler(bins["plain"])
        want = cc(t)
        if want.timeout:
            ck.inconclusive += 1
            return
        ck.count("accepted" if want.rc == 0 else "refused")
        runs = [(w, lambda b=b, e=e, wr=wr: at(b, t, os.path.join(d, "p.c"), e, wr)) for w, b, e, wr in variations(r, bins, so, want)]
        for nm in r.sample(NAMES, 2):
            runs.append(("file name %r" % nm, lambda nm=nm: at(bins["plain"], t, os.path.join(d, nm), {}, ())))
        for k in r.sample(range(1, 1 << 20), tier(2, 6)):
            e = {"LD_PRELOAD": AMBIENT[0], "AMBIENT": str(k), "AMBIENT_FILE": AMBIENT[1]}
            runs.append(("other answers of the system", lambda e=e: at(bins["plain"], t, os.path.join(d, "p.c"), e, ())))
        for how in r.sample(AROUND, 2):
            runs.append(("surroundings: " + how, lambda how=how: at(bins["plain"], t, os.path.join(d, "p.c"), {}, (), how=how)))
        runs.append(("relative path", lambda: at(bins["plain"], t, os.path.join(d, "rel.c"), {}, (), rel=True)))
        for what, f in runs:
            got = f()
            if got.timeout:
                ck.inconclusive += 1
                continue
            ck.count(re.sub(r"(seed|name) .*", r"\1", what))
            ck.observe((t, what))
            if what.startswith("build ") and got.rc not in (0, 1):
                ck.count("sanitizer_reports_left_to_C07")
                continue
            if not got.same(want, diagnostics=True):
                ck.violation("the outcome depends on something else than the source (%s): %s; otherwise: %s; %s" % (what, got.text(), want.text(), first_difference(got.asm, want.asm)),
                             {"source.c": t, "one.s": want.asm or b"", "other.s": got.asm or b"", "one.txt": want.err, "other.txt": got.err}, key=(re.sub(r"\d+|'.*'", "", what),))
        shutil.rmtree(os.path.join(top, os.path.relpath(d, top).split("/")[0]), True)

    pmap(one, range(n))


AMBIENT = []
AROUND = ["older output", "older output of another size", "read-only input", "input through a link", "something to read", "other files", "old input", "working directory"]


def at(binary, text, path, env, wrap, rel=False, how=""):
    here, more = os.path.dirname(path), []

    def put(name, b):
        more.append(os.path.join(here, name))
        with open(more[-1], "wb") as f:
            f.write(b)
    real = path
    if how == "input through a link":
        real = os.path.join(here, "real file.txt")
        os.symlink(real, path)
        more.append(real)
    with open(real, "wb") as f:
        f.write(text)
    stdin = None
    if how == "read-only input":
        os.chmod(path, 0o400)
    elif how == "older output" or how == "older output of another size":
        put("p.s", b"\t.text\n\t.globl other\nother:\n\tret\n" * (1 if how == "older output" else 5000))
    elif how == "something to read":
        stdin = b"int main(void) { return 1; }\n" * 10
    elif how == "other files":
        for n in ("p", "p.h", "p.o", "p.i", "q.c", ".umlcc", "umlcc.conf", "a.out"):
            put(n, b"int x = 1;\n")
    elif how == "old input":
        os.utime(path, (86400, 86400))
    cwd = os.path.dirname(path) if rel else "/" if how == "working directory" else None
    stale = path[:-2] + ".s" in more
    r = run(list(wrap) + [binary, os.path.basename(path) if rel else path], timeout=120, env=env, cwd=cwd, stdin=stdin)
    if stale and r.rc == 1:
        os.unlink(path[:-2] + ".s")     # what was there before stays after a refusal: C09 watches that
    out, asm = None, path[:-2] + ".s"
    if os.path.exists(asm):
        with open(asm, "rb") as f:
            out = f.read()
        os.unlink(asm)
    os.unlink(path)
    for m in more:
        if os.path.lexists(m):
            os.unlink(m)
    return Outcome(r.rc, r.err, out, r.timeout or r.rc in (-9, -24))


# ---- unrelated parts
KEEP = set(re.findall(r"\b(\w+)\(", PRELUDE)) | set(lexgen.KEYWORDS) | {"main"}
ODD = ["rax", "eax", "al", "st", "mov", "ret", "call", "text", "data", "section", "globl", "byte", "ptr", "offset", "L", "L0", "L1", "L2", "LC0", "Lstr0", "rip", "rbp", "_", "__a", "a", "b", "zz", "aa", "ab", "ba", "A", "B1", "quad", "long_", "int_", "f", "g", "x", "y", "z"]


def renamed(r, ts, keep, odd=False):
    """every name of the program consistently replaced"""
    names = sorted({t for t in ts if lexgen.IDENT.fullmatch(t)} - KEEP - keep)
    pool = set()
    style = r.randrange(4)
    while len(pool) < len(names):
        if odd and len(pool) < len(ODD) - 3:
            n = r.choice(ODD)
        elif style == 0:
            n = "v%d_%d" % (r.randrange(10 ** 9), len(pool))
        elif style == 1:
            n = "".join(r.choice("ab") for _ in range(r.randrange(3, 14)))
        elif style == 2:
            n = ("p" * r.randrange(1, 120)) + str(r.randrange(10 ** 6))
        else:
            n = "".join(r.choice("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789") for _ in range(r.randrange(4, 40)))
            if not (n[0].isalpha()):
                n = "q" + n
        if n not in KEEP and n not in keep and n not in lexgen.RESERVED and n not in pool:
            pool.add(n)
    pool = list(pool)
    pool.sort()
    r.shuffle(pool)
    m = dict(zip(names, pool))
    return [m.get(t, t) for t in ts], m


JUNK = [lambda k, r: "int un%d(int a, int b) { int i; for (i = 0; i < a; i++) { if (b > i) b += i; else b -= a; } return a %s b; }" % (k, r.choice(["+", "*", "/", "-", "^"])),
        lambda k, r: "int un%d = %d;" % (k, r.randrange(1000)), lambda k, r: "char un%d[%d] = \"%s\";" % (k, 40, "x" * r.randrange(30)),
        lambda k, r: "struct un%d { int a; char b[%d]; long c; };" % (k, r.randrange(1, 30)), lambda k, r: "enum un%d { un%da, un%db = %d };" % (k, k, k, r.randrange(50)),
        lambda k, r: "typedef long un%d;" % k, lambda k, r: "long un%d[%d];" % (k, r.randrange(1, 500)), lambda k, r: "int un%d(char *s, long n);" % k,
        lambda k, r: "char *un%d(void) { return \"%s\"; }" % (k, "abc" * r.randrange(9)),
        lambda k, r: "long un%d(int a) { switch (a) { case 1: return 5; case %d: a = 3; default: return a ? a : 7; } }" % (k, r.randrange(2, 99)),
        lambda k, r: "void un%d(int *p, int n) { int big[%d]; int i; for (i = 0; i < n; i++) big[i] = p[i]; while (n > 0) { n--; p[n] = big[n] && n || p[0]; } }" % (k, r.choice([10, 1000, 9000]))]


def junk(r, k):
    return "\n".join(r.choice(JUNK)(k * 100 + j, r) for j in range(r.randrange(1, 12))) + "\n"


def unrelated(n, odd=False):
    cases = []
    for i in range(n):
        r = rng("c13u", i, odd)
        if i % 3 == 2:
            u, e = program(r, 500000 + i, size=3, stmts=6)[:2]
            c = Case(u, e)
        elif i % 3 == 1:
            u, e = Scopes(r, "_c%d" % i).program()
            c = Case(u, e)
        else:
            for _ in range(60):
                c = r.choice(inputs.FRAGMENTS)(r)
                if not c.may_reject:
                    break
            c.u = c.u.replace("idf(", "ev2(4, ")
        try:
            ts = lexgen.tokens(c.u)
        except lexgen.Bad:
            continue
        how = 0 if odd else i % 4
        keep = set(re.findall(r"\w+", c.h)) | {c.entry}
        if how == 0:
            ts2, _ = renamed(r, ts, keep, odd)
            u, tag = " ".join(ts2), "renamed to short and odd names" if odd else "renamed"
        elif how == 1:
            u, tag = junk(r, i * 2) + c.u + "\n" + junk(r, i * 2 + 1), "unrelated parts around"
        elif how == 2:
            ts2, _ = renamed(r, ts, keep)
            u, tag = junk(r, i * 2) + " ".join(ts2), "renamed, unrelated parts before"
        else:
            # unrelated declarations between the functions
            parts = re.split(r"(?<=\n)", c.u)
            u, tag = "".join(p + (junk(r, i * 100 + j) if balanced(parts[:j + 1]) and j < 90 and p.strip() else "") for j, p in enumerate(parts)), "unrelated parts between"
        cases.append(Case(u + "\n", c.entry, c.h, host_entry=c.host_entry, stateful=c.stateful, tag=tag, ref=c.u))
    return cases


def balanced(parts):
    t = "".join(parts)
    return t.count("{") == t.count("}") and t.count("(") == t.count(")") and t.rstrip().endswith((";", "}"))


def check():
    ck = Check("C13", "one run of the compiler on one source under another heap, layout, environment, name, directory or build, byte for byte the "
               "same status, diagnostics and assembly; or one program with its names replaced or unrelated parts added that still logs what the reference builds of the original log")
    eng = Engine()
    bins = {"plain": eng.umlcc}
    for b in ("asan", "o0zero", "o1pattern", "gcc-o1pattern"):
        bins[b] = build(b)
    so = os.path.join(scratch(), "heap.so")
    must(["gcc", "-O1", "-fno-builtin", "-shared", "-fPIC", os.path.join(RT, "heap.c"), "-o", so], "heap.so")
    AMBIENT[:] = [os.path.join(scratch(), "ambient.so"), os.path.join(scratch(), "asked")]
    must(["gcc", "-O1", "-w", "-shared", "-fPIC", os.path.join(RT, "ambient.c"), "-o", AMBIENT[0]], "ambient.so")
    determinism(ck, bins, so, tier(500, 4000))
    ck.count("questions the compiler put to the system (environment, time, identity, chance)", os.path.getsize(AMBIENT[1]) if os.path.exists(AMBIENT[1]) else 0)
    eng.evaluate(ck, unrelated(tier(500, 8000)), size=10)
    eng.evaluate(ck, unrelated(tier(60, 1000), odd=True), size=1)
    ck.finish(min_evaluations=2000)


if __name__ == "__main__":
    main(check)
