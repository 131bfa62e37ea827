"""Forms of the accepted language: small functions and declarations over the environment of gen/illformed.py.

A form is the text of one or more external declarations in which @ stands for a number of its own.
data/accepted.txt lists those that C allows and the compiler accepts; `python3 gen/acceptgen.py --write` renews it."""
import itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "checks"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import random
import c10
from illformed import ENV

DATA = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "data", "accepted.txt")

BASES = ["void", "char", "int", "long", "unsigned", "unsigned int", "struct S", "enum E", "TI", "TS"]
SPELL = [["unsigned"], ["unsigned", "int"], ["long"], ["long", "int"], ["long", "long"], ["long", "long", "int"], ["unsigned", "long"], ["unsigned", "long", "int"], ["unsigned", "long", "long"], ["unsigned", "long", "long", "int"], ["int"], ["char"]]
DECLARATORS = ["#", "*#", "**#", "***#", "#[3]", "#[2][3]", "#[2][3][4]", "*#[3]", "(*#)[3]", "(*#)(void)", "(*#)(int x)", "(*#)(int, char *)", "*(*#)(int x)", "(*#[2])(int x)", "(**#)(int x)", "(#)", "((#))", "(*#)", "*(#)", "(#)[3]", "(#[3])", "*(*#)[3]", "(*(*#)(int x))(char y)", "(*(*#)[2])(int x)",
               "#['a']", "#[0x10]", "#[E2]", "#[1L]", "(*#)(int (*g)(int y))", "(*#)(int a[3])", "(*#)(struct S *p, enum E e)", "(*#)(TI, TS *)"]
FUNCS = ["#(void)", "#(int x)", "*#(int x)", "#(int, char)", "(#)(int x)", "#(int x, char *y, long z)", "#(int a[3])", "#(int a[])", "#(int a[2][3])", "#(int f(int x))", "#(int (*f)(int x))", "(*#(int x))[3]", "(*#(int x))(char c)", "**#(void)", "#(struct S *s, enum E e, TI t)", "#(int a, int b, int c, int d, int e, int f, int g, int h)"]
INITS = {"#": ["1", "-1", "'a'", "E1", "~0", "+3", "(2)", "{4}", "sizeof(int)", "sizeof(struct S)", "(char)300", "0x7fL", "-(1)"], "#[3]": ["{1}", "{1, 2, 3}", "{1, 2, 3,}", "{'a', E1, -1}", "{{1}, 2}"], "#[2][3]": ["{{1}, {2, 3}}", "{1, 2, 3, 4}", "{{1, 2, 3}, 4}", "{{1}, {2}}"],
         "*#": ["(@t *)0"]}
LOCAL = ["gi", "gi + 1", "f0()", "gi ? 1 : 2", "gi && gl", "ga[1]", "gs.a", "gps->a", "*gp", "gi = 2", "gi++", "sizeof(gi)", "-gi", "!gp", "gl", "gc", "gu"]
INNER = ["gi = 1;", ";", "{ }", "{ gi = 1; }", "if (gi) gl = 1;", "if (gi) gl = 1; else gl = 2;", "while (gi) gi--;", "for (gi = 0; gi < 3; gi++) gl++;", "for (;;) break;", "for (; gi; ) gi--;", "for (int i = 0; i < 2; i++) gl += i;", "for (;; gi++) { if (gi) break; }", "switch (gi) { case 1: gl = 1; }",
         "switch (gi) { case 1: case 2: gl = 1; break; default: ; }", "switch (gi) gl = 2;", "switch (gi) case 1: gl = 2;", "switch (gi) default: gl = 2;", "return 1;", "{ int q = 1; gi = q; }", "{ int q; { int q; q = 1; } }", "{ typedef int Q; Q q = 1; gi = q; }", "{ struct Q { int a; } q; q.a = 1; gi = q.a; }", "{ enum Q { QA, QB }; gi = QB; }",
         "f0();", "(gi);", "{ gi = 1; ; ; }", "{ ; int q = 1; ; }", "gi++;", "*gp = 1;", "{ int q, *r, s[3]; gi = 1; }", "{ int q = 1, *r = &q; gi = *r; }", "{ { } { } }"]
OUTER = ["%", "{ % }", "{ % % }", "if (gi) %", "if (gi) % else gi = 1;", "if (gi) gi = 1; else %", "while (gi) %", "while (gi) { % break; }", "while (gi) { % continue; }", "for (gi = 0; gi < 2; gi++) %", "for (int j = 0; j < 2; j++) { % }", "switch (gi) { case 1: % }", "switch (gi) { case 1: % break; default: % }",
         "switch (gi) { % case 1: ; }", "switch (gi) { case 1: case 2: % case 3: ; }", "switch (gi) { default: % }", "if (gi) { % } else if (gl) { % } else { % }", "{ int q = 2; % }", "for (;;) { % }", "while (1) { if (gi) break; % }", "switch (gi) { case 1: { % } break; }", "switch (gi) { case 1: for (;;) { % break; } }"]
JUMPS = ["break;", "continue;", "if (gi) break;", "if (gi) continue;", "{ break; }", "{ { continue; } }", "if (gi) break; else continue;", "switch (gi) { case 1: break; }", "switch (gi) { case 1: continue; default: break; }", "for (;;) { break; }", "while (gi) continue;"]
JOUT = ["while (gi) %", "while (gi) { % }", "for (;;) %", "for (gi = 0; gi < 2; gi++) { gl = 1; % }", "for (int j = 0; j < 2; j++) %", "while (gi) { { % } }", "while (gi) if (gl) %", "while (gi) { switch (gl) { case 1: % } }", "for (;;) { while (gi) { % } % }"]
STRUCTS = ["struct Q@ { int a; };", "struct Q@ { int a, b; char c; };", "struct Q@ { int *a, b[3], **c; };", "struct Q@ { struct Q@ *n; };", "struct Q@ { struct { int a; } s; };", "struct Q@ { struct R@ { int a; } s, *t; };", "struct Q@ { int (*f)(int x); int a[2][3]; };", "struct Q@ { enum { QA@, QB@ } e; };", "struct Q@ { enum E e; TI t; TS s; struct S *p; };",
           "struct Q@; struct Q@ *q@;", "struct Q@; struct Q@ { int a; };", "struct Q@ *q@; struct Q@ { int a; }; struct Q@ r@;", "struct Q@ { int a; } q@;", "struct Q@ { int a; } q@, *r@, s@[3];", "struct { int a; } q@;", "struct { int a; } q@, *r@;", "typedef struct Q@ { int a; } Q@;", "typedef struct { int a; } Q@; Q@ q@;", "typedef struct Q@ Q@; struct Q@ { Q@ *n; };",
           "struct Q@ { char c; } q@ = {'x'};", "struct Q@ { int a; char b[4]; } q@ = {1, \"abc\"};", "struct Q@ { int a; struct S s; } q@ = {1, {2, 'c'}};", "struct Q@ { int a; } q@[2] = {{1}, {2}};", "struct Q@ { int a; int b; } q@[2] = {1, 2, 3};",
           "enum Q@ { QA@ };", "enum Q@ { QA@, };", "enum Q@ { QA@, QB@, QC@ };", "enum Q@ { QA@ = 5, QB@, QC@ = 'a', QD@ = QA@ };", "enum { QA@ = 0x10 };", "enum Q@ { QA@ } q@;", "enum Q@ { QA@ } q@ = QA@;", "enum Q@ { QA@ }; enum Q@ q@ = QA@;", "typedef enum { QA@, QB@ } Q@; Q@ q@;", "typedef enum Q@ { QA@ } Q@;", "typedef int Q@; typedef Q@ R@; R@ q@ = 2;", "typedef int *Q@, R@[3]; Q@ q@; R@ r@ = {1};",
           "typedef int Q@(int x); Q@ q@;", "typedef int (*Q@)(int x); Q@ q@; int r@(Q@ f) { return f(1); }", "typedef char Q@[4]; Q@ q@ = \"ab\"; Q@ r@[2];", "int q@, r@ = 2, *s@, t@[3], u@(int x);", "int q@; int r@(void) { return q@; }", "int q@(void); int r@(void) { return q@(); }", "char q@[4] = \"abc\";", "char q@[3] = \"abc\";", "char q@[6] = {\"abc\"};", "char q@[2][4] = {\"abc\", \"de\"};", "char q@[] = \"abc\";", "int q@[] = {1, 2, 3};",
           "int q@[2][2] = {{1, 2}, {3, 4}};", "int q@(int x) { return x ? q@(x - 1) : 0; }", "void q@(void) { }", "void q@(void) { return; }", "char *q@(void) { return \"abc\"; }", "int q@(int a, int b, int c, int d, int e, int f, int g, int h) { return a + h; }", "struct S *q@(void) { return &gs; }", "int (*q@(void))[3] { return gpa; }", "int (*q@(int a))(int x) { return gf; }", "void q@(int *p) { *p = 1; }", "int q@(int x) { { return x; } }", "int q@(int x) { if (x) return 1; return 2; }",
           "int q@(char c) { return c; }", "long q@(int x) { return x; }", "char q@(long x) { return x; }", "unsigned int q@(char c) { return c; }", "enum E q@(enum E e) { return e; }", "int q@(struct S *s) { return s->n->n->arr[1]; }", "int q@(int a[3]) { return a[1]; }", "int q@(int a[2][3]) { return a[1][2]; }", "int q@(int f(int x)) { return f(1); }", "int q@(TI t, TS *s) { return t + s->a; }", ";", "int q@(int x) { int q@ = x; return q@; }"]


def expressions():
    m = c10.matrix(random.Random(1), 1.0)
    return ["int m@(int prm) { %s return 0; }" % t for _, t in m]


def declarations():
    out = []
    for b in BASES:
        for d in DECLARATORS:
            for place in ["%;", "struct m@ { % ; };", "int m@(void) { %; return 1; }", "int m@(%);", "int m@(%) { return 1; }", "typedef %; ", "int m@(void) { return sizeof(%x); }", "int m@(void) { typedef %; return sizeof(n@); }"]:
                n = "" if "%x" in place else "n@"
                t = "%s %s" % (b, d.replace("#", n))
                out.append(place.replace("%x", t).replace("%", t))
        for f in FUNCS:
            t = "%s %s" % (b, f.replace("#", "n@"))
            out += [t + ";", "int m@(void) { return 1; } " + t + ";", "int m@(%s);" % t]
        for d, vs in INITS.items():
            for v in vs:
                v = v.replace("@t", b)
                t = "%s %s = %s;" % (b, d.replace("#", "n@"), v)
                out += [t, "int m@(void) { %s return 1; }" % t]
        for v in LOCAL:
            out += ["int m@(void) { %s n@ = %s; return 1; }" % (b, v), "int m@(void) { %s n@[2] = {%s, %s}; return 1; }" % (b, v, v), "%s m@(void) { return %s; }" % (b, v), "int m@(%s n@) { n@ = %s; return 1; }" % (b, v), "int m@(%s *n@) { *n@ = %s; return 1; }" % (b, v), "int m@(void) { return sizeof((%s)(%s)); }" % (b, v)]
        for v in ("gp", "gps", "gv", "gcp", "ga", "&gi", "&gs", "gpp", "glp", "fr()", '"abc"', "gps->n", "gs.n", "gs.arr"):
            out += ["int m@(void) { %s *n@ = %s; return 1; }" % (b, v), "%s *m@(void) { return %s; }" % (b, v), "int m@(%s *n@) { n@ = %s; return 1; }" % (b, v), "int m@(void) { return n@; }".replace("n@", "(%s *)%s == gv" % (b, v))]
    for ws in SPELL:
        for p in sorted(set(itertools.permutations(ws))):
            s = " ".join(p)
            out += ["%s n@;" % s, "%s n@ = 3;" % s, "%s n@(%s x);" % (s, s), "int m@(%s a, %s *b) { return sizeof(%s) + (%s)a; }" % (s, s, s, s), "struct m@ { %s a; %s b[2]; };" % (s, s), "typedef %s n@; n@ m@;" % s, "int m@(void) { for (%s i = 0; i < 2; i++) ; return 1; }" % s]
            for i in range(1, len(p) + 1):
                out.append("%s typedef %s n@;" % (" ".join(p[:i]), " ".join(p[i:])))
    return out + STRUCTS


def statements():
    out = []
    for o in OUTER:
        for i in INNER:
            out.append("int m@(int prm) { %s return 0; }" % o.replace("%", i))
            out.append("int m@(int prm) { gi = 2; %s }" % o.replace("%", i))
    r = random.Random(7)
    for _ in range(1200):
        t = r.choice(INNER)
        for _ in range(r.choice([2, 3, 4])):
            t = r.choice(OUTER).replace("%", t)
        out.append("int m@(int prm) { %s return 0; }" % t)
    for o in JOUT:
        for j in JUMPS:
            out.append("int m@(int prm) { %s return 0; }" % o.replace("%", j))
    for o in JOUT:
        for o2 in OUTER:
            for j in r.sample(JUMPS, 2):
                out.append("int m@(int prm) { %s return 0; }" % o.replace("%", o2.replace("%", j)))
    return out


def forms():
    seen = {}
    for t in expressions() + declarations() + statements():
        seen.setdefault(t, 0)
    return list(seen)


def write():
    from common import Check, build, pmap, run, subdir, scratch
    from outcome import Compiler
    fs = forms()
    cc = Compiler(build("plain"))
    d = subdir("acc")

    def one(i):
        text = ENV + fs[i].replace("@", str(i)) + "\n"
        o = cc(text)
        if o.rc != 0:
            return False
        p = os.path.join(d, "a%d.c" % i)
        open(p, "w").write(text)
        r = run(["gcc", "-std=c99", "-pedantic-errors", "-fsyntax-only", p])
        os.unlink(p)
        return not any(c10.hard(l) for l in r.err.decode("latin-1").split("\n"))
    ok = pmap(one, range(len(fs)))
    with open(DATA, "w") as f:
        f.writelines(t + "\n" for t, v in zip(fs, ok) if v)
    print(len(fs), sum(ok))


if __name__ == "__main__" and "--write" in sys.argv:
    write()
