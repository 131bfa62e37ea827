"""C08: compilation ends, with work polynomial in the size of the source."""
import math, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "gen"))
from common import *
import inputs
from inputs import fn, DECLS, _wrap
import bare, ctok

WRAPS = ["malloc", "calloc", "realloc", "strlen", "strcmp", "memcpy", "memmove", "strcpy", "strcat"]
MEM = 8000000           # KB of address space
DEGREE = 2.6            # largest tolerated growth exponent of the work
OUT_DEGREE = 1.35       # and of the output


def instrumented():
    VARIANTS["bb"] = ("gcc", ["-O1", "-fno-builtin", "-fsanitize-coverage=trace-pc"], ["-Wl," + ",".join("--wrap=" + w for w in WRAPS)])
    o = os.path.join(subdir("c08-rt"), "steps.o")
    must(["gcc", "-w", "-O2", "-fno-builtin", "-c", os.path.join(RT, "steps.c"), "-o", o], "step counter")
    return build("bb", extra=[o])


class Meter:
    def __init__(self, exe):
        self.exe, self.n = exe, 0
        self.lock = threading.Lock()
        self.dir = subdir("c08-in")

    def measure(self, text, cap=None):
        """-> (status, source bytes, work, output bytes); status 97: over the step limit, 96: out of memory, None: no answer"""
        with self.lock:
            self.n += 1
            p = os.path.join(self.dir, "p%d.c" % self.n)
        b = text if isinstance(text, bytes) else text.encode("latin-1", "replace")
        with open(p, "wb") as f:
            f.write(b)
        cap = cap or 2000000000 + 500 * len(b) * len(b)
        s = p[:-2] + ".steps"
        r = run(["bash", "-c", "ulimit -s 1000000; ulimit -f 4000000; ulimit -v %d; exec \"$0\" \"$1\"" % MEM, self.exe, p], timeout=300, env={"STEPS_FILE": s, "STEPS_CAP": str(cap)})
        work = out = None
        if os.path.exists(s):
            a, c, e = [int(x) for x in open(s).read().split()]
            work = a + c // 64 + e // 16
            os.unlink(s)
        if os.path.exists(p[:-2] + ".s"):
            out = os.path.getsize(p[:-2] + ".s")
            os.unlink(p[:-2] + ".s")
        os.unlink(p)
        return (None if r.timeout else r.rc), len(b), work, out


# constructs repeated side by side: n -> text
FLAT = {
    "functions": lambda n: "".join("int f%d(int a) { return a + %d; }\n" % (i, i) for i in range(n)),
    "prototypes": lambda n: "".join("int f%d(int a, char *b);\n" % i for i in range(n)),
    "functions calling the previous": lambda n: "int f0(int a) { return a; }\n" + "".join("int f%d(int a) { return f%d(a) + 1; }\n" % (i, i - 1) for i in range(1, n)),
    "globals": lambda n: "".join("int g%d; " % i for i in range(n)) + "int main(void) { return g%d; }\n" % (n - 1),
    "initialized globals": lambda n: "".join("long g%d = %d; " % (i, i) for i in range(n)) + "\n",
    "globals used": lambda n: "".join("int g%d; " % i for i in range(n)) + "int main(void) { %s return 0; }\n" % "".join("g%d = %d; " % (i, i) for i in range(n)),
    "locals": lambda n: "int main(void) { %s return l0; }\n" % "".join("int l%d = %d; " % (i, i) for i in range(n)),
    "locals used": lambda n: "int main(void) { %s %s return l0; }\n" % ("".join("int l%d; " % i for i in range(n)), "".join("l%d = l%d; " % (i, i - 1) for i in range(1, n))),
    "declarators": lambda n: "int main(void) { int %s; return l0; }\n" % ", ".join("l%d" % i for i in range(n)),
    "block scopes": lambda n: "int main(void) { %s return 0; }\n" % "".join("{ int a%d = 1; a%d++; } " % (i, i) for i in range(n)),
    "assignments": lambda n: fn("%s return a;" % "a = b + 1; " * n),
    "calls": lambda n: fn("%s return a;" % "f(a); " * n),
    "call results": lambda n: fn("%s return a;" % "a = f2(a, b); " * n),
    "ifs": lambda n: fn("%s return a;" % "if (a < b) a++; else b--; " * n),
    "whiles": lambda n: fn("%s return a;" % "while (a < b) a++; " * n),
    "fors": lambda n: fn("%s return a;" % "for (a = 0; a < b; a++) { if (a == 3) break; continue; } " * n),
    "switches": lambda n: fn("%s return a;" % "switch (a) { case 1: a = 2; break; case 2: default: b = 3; } " * n),
    "cases": lambda n: fn("switch (a) { %s } return b;" % "".join("case %d: b = %d; break; " % (i, i) for i in range(n))),
    "returns": lambda n: fn("%s return a;" % "".join("if (a == %d) return b; " % i for i in range(n))),
    "empty statements": lambda n: fn(";" * n + "return a;"),
    "conditionals": lambda n: fn("%s return a;" % "a = a ? b : 2; " * n),
    "logicals": lambda n: fn("%s return a;" % "a = a && b || a < 3; " * n),
    "subscripts": lambda n: fn("%s return a;" % "ga[a] = ga[b] + 1; " * n),
    "compound assignments": lambda n: fn("%s return a;" % "a += b; ga[a] -= 2; " * n),
    "increments": lambda n: fn("%s return a;" % "a++; --b; ga[a]++; " * n),
    "members": lambda n: fn("%s return a;" % "gq->v = gn.v + gq->n->v; " * n),
    "pointers": lambda n: fn("%s return a;" % "gp = &a; *gp = *gp + 1; gp = gp + 1; " * n),
    "strings": lambda n: "void p(char *s);\nint main(void) { %s return 0; }\n" % "".join("p(\"text %d\"); " % i for i in range(n)),
    "characters of a string": lambda n: "char s[] = \"%s\"; void p(char *s);\nint main(void) { p(\"%s\"); return 0; }\n" % ("x" * (8 * n), "y" * (8 * n)),
    "local string": lambda n: "int main(void) { char s[%d] = \"%s\"; return s[0]; }\n" % (n + 1, "x" * n),
    "escapes": lambda n: "char s[] = \"%s\";\n" % ("\\n\\x41\\101" * n),
    "identifier length": lambda n: "int %s; int main(void) { return %s + %s; }\n" % (("v" * 8 * n,) * 3),
    "digits": lambda n: "int main(void) { return %s1; }\n" % ("0" * 8 * n),
    "white space": lambda n: "int main(void) { return%s1; }\n" % (" \t\n" * 4 * n),
    "parameters": lambda n: "int f(%s) { return a0; }\n" % ", ".join("int a%d" % i for i in range(n)),
    "arguments": lambda n: "int f(%s);\nint main(void) { return f(%s); }\n" % (", ".join("int a%d" % i for i in range(n)), ", ".join(str(i) for i in range(n))),
    "structs": lambda n: "".join("struct S%d { int a; char b; long c; };\n" % i for i in range(n)) + "struct S0 x;\n",
    "struct members": lambda n: "struct S { %s }; struct S s; int main(void) { return s.m%d + sizeof(struct S); }\n" % ("".join("int m%d; " % i for i in range(n)), n - 1),
    "struct members used": lambda n: "struct S { %s }; struct S s; int main(void) { %s return 0; }\n" % ("".join("int m%d; " % i for i in range(n)), "".join("s.m%d = %d; " % (i, i) for i in range(n))),
    "objects of a large struct": lambda n: "struct S { %s };\n%s" % ("".join("int m%d; " % i for i in range(n)), "struct S a; int f(struct S *p) { return p->m0; }\n"),
    "enumerators": lambda n: "enum E { %s }; int main(void) { return E%d; }\n" % (", ".join("E%d" % i for i in range(n)), n - 1),
    "enumerators used": lambda n: "enum E { %s }; int main(void) { int a = 0; %s return a; }\n" % (", ".join("E%d" % i for i in range(n)), "".join("a = E%d; " % i for i in range(n))),
    "enums": lambda n: "".join("enum E%d { A%d, B%d = 7 }; " % (i, i, i) for i in range(n)) + "\n",
    "typedefs": lambda n: "".join("typedef int T%d; T%d v%d; " % (i, i, i) for i in range(n)) + "\n",
    "typedefs of structs of pointers to the one before": lambda n: "typedef struct { int a; } T0; " + "".join("typedef struct { T%d *a; T%d *b; } T%d; " % (i - 1, i - 1, i) for i in range(1, n)) + "T%d v; int f(T%d *p) { return v.a == p->b; }\n" % (n - 1, n - 1),
    "typedefs of structs of arrays of the one before": lambda n: "typedef struct { int *a; } T0; " + "".join("typedef struct { T%d *a[3]; int b; T%d (*c)[2]; } T%d; " % (i - 1, i - 1, i) for i in range(1, n)) + "T%d v; int f(T%d *p) { return v.b == p->b; }\n" % (n - 1, n - 1),
    "typedefs of functions of the one before": lambda n: "typedef int (*F0)(int a); " + "".join("typedef int (*F%d)(F%d a, F%d b); " % (i, i - 1, i - 1) for i in range(1, n)) + "F%d v; int f(F%d p) { return v == p; }\n" % (n - 1, n - 1),
    "typedefs of functions returning the one before": lambda n: "typedef int (*F0)(int a); " + "".join("typedef F%d (*F%d)(F%d b); " % (i - 1, i, i - 1) for i in range(1, n // 4)) + "F%d v; int f(F%d p) { return v == p; }\n" % (n // 4 - 1, n // 4 - 1),
    "typedef names for one another": lambda n: "typedef struct { int a; int b[3]; } T0; " + "".join("typedef T%d T%d; " % (i - 1, i) for i in range(1, n)) + "T%d v; int f(T%d *p) { return v.a == p->a; }\n" % (n - 1, n // 2),
    "objects of a large unnamed struct": lambda n: "typedef struct { %s } T; %s\n" % ("".join("int m%d; " % i for i in range(n)), "".join("T v%d; " % i for i in range(n))),
    "uses of a large unnamed struct": lambda n: "typedef struct { %s } T; T v; T *p; int f(int a) { %s return a; }\n" % ("".join("int m%d; " % i for i in range(n)), "".join("a = (p + %d)->m0 + (a < (&v == p)); " % i for i in range(n))),
    "calls of a function of many parameters": lambda n: "int f(%s);\nint g(int a) { int (*p)(%s); p = f; %s return a; }\n" % (", ".join("int a%d" % i for i in range(n)), ", ".join("int b%d" % i for i in range(n)), "p = &f; a = p == f; " * n),
    "array initializer": lambda n: "int a[%d] = {%s};\n" % (n, ", ".join(str(i) for i in range(n))),
    "local array initializer": lambda n: "int main(void) { int a[%d] = {%s}; return a[0]; }\n" % (n, ", ".join(str(i) for i in range(n))),
    "struct array initializer": lambda n: "struct S { int a; char b; }; struct S a[%d] = {%s};\n" % (n, ", ".join("{%d, 'x'}" % i for i in range(n))),
    "partly initialized array": lambda n: "int a[%d] = {1}; int main(void) { int b[%d] = {1}; return b[0]; }%s\n" % (n, n, " " * (8 * n)),
    "long sum": lambda n: fn("return %s;" % " + ".join(["a"] * n)),
    "long product of calls": lambda n: fn("return %s;" % " * ".join(["f(a)"] * n)),
    "long and": lambda n: fn("return %s;" % " && ".join(["a < b"] * n)),
    "long or": lambda n: fn("return %s;" % " || ".join(["a == %d" % i for i in range(n)])),
    "long conditional chain": lambda n: fn("return %s 0;" % "".join("a == %d ? b : " % i for i in range(n))),
    "long assignment chain": lambda n: fn("%s 1; return a;" % "a = b = " * n),
    "else if chain": lambda n: fn("%s a = 1; return b;" % "".join("if (a == %d) b = %d; else " % (i, i) for i in range(n))),
    "errors": lambda n: "int main(void) { %s return 0; }\n" % "".join("u%d = 1; " % i for i in range(n)),
    "redeclarations": lambda n: "int x; " + "long x; " * n + "\n",
    "errors in types": lambda n: fn("%s return a;" % "gp = gn; " * n),
    "unknown members": lambda n: fn("%s return a;" % "gn.zz = 1; " * n),
    "statement mix": lambda n: fn("%s return a;" % "{ int x = a; while (x > 0) { x = x - f(x); if (x == b) break; } ga[x & 7] = x ? x : b; } " * n),
    "random programs": lambda n: inputs.PRELUDE + "".join(inputs.program(rng("c08p", i), i, size=2, stmts=4)[0] + "\n" for i in range(max(1, n // 16))),
    "identifiers of the same hash": lambda n: "".join("int %s; " % "".join("ab"[(i >> k) & 1] for k in range(12)) for i in range(min(n, 4096))) + "\n",
}

# wrappers which nest in each other (an int expression from an int expression)
MIX = ["(@)", "-(@)", "!(@)", "~(@)", "(int)(long)(@)", "f(@)", "f2(1, @)", "f2(@, 2)", "ga[(@) & 7]", "(@) + 1", "2 - (@)", "(@) * 3", "(@) / 5", "(@) % 7", "(@) << 1", "1 << (@)", "(@) < b", "a == (@)", "(@) && b", "a || (@)",
       "a ? (@) : 2", "a ? 1 : (@)", "(@) ? a : b", "(a = (@))", "(b += (@))", "*(&ga[0] + (@))", "gq[@].v", "(gq + (@))->a[1]", "sizeof(@)", "*&a + (@)", "ga[1] = (@)", "(@) & 3", "5 | (@)", "((char)(@))", "(ga[2] -= (@))", "ga[(@)]++", "++ga[@]"]
STM = ["if (a) { @ }", "if (a) { b = 1; } else { @ }", "while (a) { @ }", "for (a = 0; a < 3; a++) { @ }", "switch (a) { case 1: @ break; default: b = 2; }", "{ @ }", "switch (b) { default: { @ } }", "{ int a = b; @ }",
       "if (a && b) { @ } else { b = 2; }", "for (;;) { if (a) break; @ }", "while (1) { @ break; }", "{ struct S { int q; } s; s.q = 1; @ }", "if (a) if (b) { @ } else b = 1;", "f(a); @ f(b);"]


def mixed(rnd, period, kind):
    ws = [rnd.choice(MIX if kind == "expr" else STM) for _ in range(period)]

    def text(n):
        t = "a" if kind == "expr" else "a = b;"
        for i in range(n):
            t = ws[i % period].replace("@", t, 1)
        return fn("return %s;" % t if kind == "expr" else t + " return a;")
    return "/".join(ws), text


def check():
    ck = Check("C08", "one compilation of a program of a given construct and size by the instrumented compiler (basic blocks, allocated and "
               "examined bytes counted); per construct the growth exponent of the work over the last doublings stays at most %.1f and of the output %.2f, "
               "and no run passes the step limit" % (DEGREE, OUT_DEGREE))
    m = Meter(instrumented())
    findings = {f["construct"]: f for f in load_findings() if f["property"] == "C08"}
    fams = []
    for k, f in FLAT.items():
        fams.append((k, f, [200, 400, 800, 1600, 3200] if TIER == "quick" else [200, 400, 800, 1600, 3200, 6400], "repeated"))
    for k, f in inputs.NEST.items():
        fams.append((k, f, [18, 37, 75, 150, 300], "nested"))
    r = rng("c08")
    for i in range(tier(120, 1500)):
        kind = "expr" if i % 3 else "stmt"
        name, f = mixed(r, r.choice([1, 2, 3, 4, 5]), kind)
        fams.append((name, f, [7, 15, 31, 63], "nested mix"))
    for w in MIX:
        fams.append((w, one_wrap(w, "expr"), [7, 15, 31, 63], "nested single"))
    for w in STM:
        fams.append((w, one_wrap(w, "stmt"), [7, 15, 31, 63], "nested single"))
    for k, f in findings.items():
        fams.append((k, one_wrap(k, "expr"), [2, 4, 8, 16], "finding"))
    jobs = [(i, n) for i, (_, _, ns, _) in enumerate(fams) for n in ns]
    res = dict(zip(jobs, pmap(lambda j: m.measure(fams[j[0]][1](j[1])), jobs)))
    slopes = {}
    for i, (name, f, ns, kind) in enumerate(fams):
        rows = [res[(i, n)] for n in ns]
        label = "%s: %s" % (kind, name)
        table = "\n".join("n=%d source=%d status=%s work=%s output=%s" % ((n, x[1], x[0], x[2], x[3])) for n, x in zip(ns, rows))
        ck.count("constructs " + kind)
        bad = None
        for n, x in zip(ns, rows):
            if x[0] is None:
                bad = "no answer within 300 s at n=%d" % n
            elif x[0] in (96, 97):
                bad = "%s at n=%d (source of %d bytes)" % ("step limit passed" if x[0] == 97 else "more than %d KB of memory" % MEM, n, x[1])
            elif x[0] not in (0, 1) or x[2] is None:
                ck.inconclusive += 1      # crashes are C07's matter
                bad = "skip"
            if bad:
                break
            ck.observe((label, n))
            ck.count("compilations accepted" if x[0] == 0 else "compilations refused")
            ck.count("steps", x[2])
            ck.counts["largest work of one compilation"] = max(ck.counts.get("largest work of one compilation", 0), x[2])
        if bad == "skip":
            continue
        if not bad:
            # exponents from differences, so that fixed parts of source, work and output cancel
            def exponents(col):
                v = [(x[1], x[col]) for x in rows if x[col] is not None and x[0] == rows[-1][0]]
                if len(v) < 4:
                    return []
                d = [(b[0] - a[0], b[1] - a[1]) for a, b in zip(v, v[1:])]
                return [math.log(max(b[1], 1) / max(a[1], 1)) / math.log(b[0] / a[0]) for a, b in zip(d, d[1:]) if a[0] > 0 and b[0] > 1.3 * a[0]]
            sl, so = exponents(2), exponents(3)
            slopes[label] = (sl[-1] if sl else 0, so[-1] if so else 0)
            if len(sl) >= 2 and min(sl[-2:]) > DEGREE:
                bad = "the work grows with exponents %s of the source size" % ", ".join("%.2f" % x for x in sl)
            elif len(so) >= 2 and min(so[-2:]) > OUT_DEGREE and rows[-1][3] > 30 * rows[-1][1]:
                bad = "the output grows with exponents %s of the source size" % ", ".join("%.2f" % x for x in so)
        if kind == "finding":
            if bad:
                ck.known_finding(findings[name]["id"], findings[name]["what"])
            else:
                ck.count("findings_no_longer_present")
            continue
        if bad:
            ck.violation("%s: %s\n%s" % (label, bad, table), {"program.c": f(ns[-2]).encode("latin-1", "replace"), "measurements.txt": table + "\n"}, key=label)
    if os.environ.get("SHOW"):
        for k, (a, b) in sorted(slopes.items(), key=lambda t: -t[1][0])[:30]:
            print("%.2f %.2f %s" % (a, b, k))
        print("-- output")
        for k, (a, b) in sorted(slopes.items(), key=lambda t: -t[1][1])[:20]:
            print("%.2f %.2f %s" % (a, b, k))
    ck.counts["steepest work exponent"] = round(max(x for x, _ in slopes.values()), 2) if slopes else 0
    ck.counts["steepest output exponent"] = round(max(x for _, x in slopes.values()), 2) if slopes else 0
    # termination of arbitrary sources: steps within a bound quadratic in the size
    items = []
    for i in range(tier(150, 1500)):
        rr = rng("c08t", i)
        t = inputs.small(rr, i)
        toks = ctok.tokens(t)
        items.append(t)
        items += [ctok.edit(rr, toks) for _ in range(4)]
        items.append(inputs.truncated(rr, t))
        items.append(inputs.soup(rr))
        items.append(inputs.opened(rr, rr.choice([1, 5, 40])))
        items.append(bare.source(rr, 12))
    ratio = 0

    def bounded(t):
        n = len(t)
        return n, m.measure(t, cap=40000000 + 60 * n * n + 20000 * n)
    for t, (n, x) in zip(items, pmap(bounded, items)):
        if x[0] is None or x[0] in (96, 97):
            ck.violation("arbitrary source of %d bytes: %s" % (n, "no answer within 300 s" if x[0] is None else "step limit passed"),
                         {"program.c": t if isinstance(t, bytes) else t.encode("latin-1", "replace")}, key="arbitrary %d" % n)
        elif x[0] in (0, 1) and x[2] is not None:
            ck.observe(("arbitrary", t))
            ck.count("arbitrary sources within the bound")
            ratio = max(ratio, x[2] / (n * n + 1000 * n + 1000))
    ck.counts["largest work / (n^2 + 1000 n)"] = round(ratio, 3)
    ck.sample("growth of the work per construct, steepest: " + ", ".join("%s %.2f" % (k, a) for k, (a, b) in sorted(slopes.items(), key=lambda t: -t[1][0])[:8]))
    ck.finish(min_evaluations=500)


def one_wrap(w, kind):
    def text(n):
        t = "a" if kind == "expr" else "a = b;"
        for _ in range(n):
            t = w.replace("@", t, 1)
        return fn("return %s;" % t if kind == "expr" else t + " return a;")
    return text


if __name__ == "__main__":
    main(check)
