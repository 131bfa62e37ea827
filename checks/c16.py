"""C16: every program of the accepted language is translated to linkable assembly."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "gen"))
from diff import *
from outcome import *
import acceptgen, inputs, misplaced, typepairs
from illformed import ENV
from proggen import program
from classics import classic
from scopegen import Scopes

N = [0]


def nid():
    N[0] += 1
    return N[0]


# ---- the listed forms
def accepted_forms(ck, eng):
    with open(acceptgen.DATA) as f:
        forms = [l.rstrip("\n") for l in f]
    r = rng("c16f")
    if TIER == "quick":
        # all declarations and statements, a third of the expressions; which third depends on the seed
        forms = [t for t in forms if not t.startswith("int m@(int prm)") or len(t) > 70 or r.random() < 0.4]
    r.shuffle(forms)
    cc = Compiler(eng.umlcc)
    d = subdir("c16-forms")

    def text(fs):
        return ENV + "".join(t.replace("@", str(i)) + "\n" for i, t in fs)

    def one(fs):
        """-> list of (form, why)"""
        o = cc(text(fs), timeout=120)
        if o.timeout:
            return [] if len(fs) > 1 else [(fs[0], None)]
        why = None
        if o.rc != 0 or o.asm is None:
            why = "refused: " + o.text()
        else:
            p = os.path.join(d, "f%d.s" % fs[0][0])
            with open(p, "wb") as f:
                f.write(o.asm)
            a = run(["as", p, "-o", p + ".o"], timeout=120)
            os.unlink(p)
            if a.rc == 0:
                os.unlink(p + ".o")
            else:
                why = "the assembler refuses its output: " + a.err.decode("latin-1")[:300]
        if why is None:
            ck.count("forms_accepted_and_assembled", len(fs))
            for i, t in fs:
                ck.observe(t)
            return []
        if len(fs) == 1:
            return [(fs[0], why)]
        m = len(fs) // 2
        out = one(fs[:m])
        if len(out) < 4:
            out += one(fs[m:])
        if not out:
            return [(fs[0], "%d forms together are %s" % (len(fs), why))] if len(fs) > 1 else []
        return out
    ch = [list(enumerate(forms))[i:i + 250] for i in range(0, len(forms), 250)]
    for res in pmap(one, ch):
        for (i, t), why in res:
            if why is None:
                ck.inconclusive += 1
                continue
            ck.violation("a form of the accepted language is %s\n%s" % (why, t), {"form.c": ENV + t.replace("@", str(i)) + "\n"}, key=("form", t))


def placed(ck, eng):
    """jumps and labels at every place where they may be"""
    cc = Compiler(eng.umlcc)

    def one(i):
        text = misplaced.placed(rng("c16j", i))
        o = cc(text)
        if o.timeout:
            ck.inconclusive += 1
        elif o.rc == 0 and o.asm is not None:
            ck.observe(text)
            ck.count("placed_jumps_accepted")
        else:
            ck.violation("jumps and labels where they may be are refused: %s\n%s" % (o.text(), text[:900]), {"jumps.c": text}, key=("jumps", o.text()[-60:]))
    pmap(one, range(tier(600, 10000)))


def like_types(ck, eng):
    """two objects declared with the same derived type, however deep, agree wherever types have to agree"""
    cc = Compiler(eng.umlcc)
    d = subdir("c16-types")

    def one(i):
        label, text, same = typepairs.pair(rng("c16t", i), True)
        o = cc(text)
        if o.timeout:
            ck.inconclusive += 1
            return
        if o.rc == 0 and o.asm is not None:
            ck.observe(text)
            ck.count("like_types_accepted")
            return
        p = os.path.join(d, "t%d.c" % i)
        with open(p, "w") as f:
            f.write(text)
        a = run(["gcc", "-std=c99", "-pedantic-errors", "-fsyntax-only", p], timeout=60)
        os.unlink(p)
        if a.rc == 0:
            ck.violation("%s: like types taken as different: %s\n%s" % (label, o.text(), text), {"types.c": text}, key=("types", label))
    pmap(one, range(tier(1200, 30000)))


# ---- sizes: n -> (text, entry); every program computes something from all its parts
def fam(f):
    FAMILIES.append(f)
    return f


FAMILIES = []


@fam
def functions(n, k):
    return "".join("int f%d_%d(int a) { return a * %d + %d; }\n" % (k, i, i % 7 + 1, i) for i in range(n)) + "void e%d(void) { unsigned int s = 1U; %s log_u(s); }\n" % (k, " ".join("s = s * 31U + f%d_%d(s & 15U);" % (k, i) for i in range(n)))


@fam
def call_chain(n, k):
    return "int f%d_0(int a) { return a; }\n" % k + "".join("int f%d_%d(int a) { int b = f%d_%d(a + 1); return b ^ %d; }\n" % (k, i, k, i - 1, i) for i in range(1, n)) + "void e%d(void) { log_i(f%d_%d(5)); }\n" % (k, k, n - 1)


@fam
def globals_(n, k):
    return "".join("%s g%d_%d%s;\n" % (["int", "char", "long", "unsigned int"][i % 4], k, i, " = %d" % (i % 120) if i % 3 else "") for i in range(n)) + "void e%d(void) { unsigned long s = 1UL; %s log_m(s); }\n" % (k, " ".join("g%d_%d += %d; s = s * 33UL + g%d_%d;" % (k, i, i % 5, k, i) for i in range(n)))


@fam
def locals_(n, k):
    return "void e%d(void) { unsigned int s = 1U; %s %s log_u(s); }\n" % (k, " ".join("%s l%d = %d;" % (["int", "char", "long", "unsigned int"][i % 4], i, i % 100) for i in range(n)), " ".join("l%d++; s = s * 31U + l%d;" % (i, i) for i in range(n)))


@fam
def statements(n, k):
    st = ["a = b + %d;", "b = a ^ %d;", "if (a > b) a -= %d; else b++;", "ar[a & 7] = b + %d;", "b += ar[b & 7] - %d;", "while (c < 3) { c++; a += %d; }", "c = a %% 5 ? %d : 2;", "switch (a & 3) { case 1: b += %d; break; case 2: a++; default: c = 0; }", "for (c = 0; c < 2; c++) { if (c == a) continue; b ^= %d; }", "a = f%d(b, %%d);" % k]
    return "int f%d(int x, int y) { return (x & 255) + y; }\nvoid e%d(void) { int a = 1; int b = 2; int c = 0; int ar[8] = {1, 2, 3, 4, 5, 6, 7, 8}; %s log_i(a); log_i(b); log_i(c); }\n" % (k, k, " ".join((st[i % 10] % (i % 50)) + (" a &= 4095; b &= 4095;" if i % 4 == 3 else "") for i in range(n)))


@fam
def strings(n, k):
    return "int h%d(char *s) { int h = 0; while (*s) h = (h * 31 + *s++) & 65535; return h; }\nvoid e%d(void) { unsigned int s = 1U; %s log_u(s); }\n" % (k, k, " ".join("s = s * 31U + h%d(\"str%d%s\");" % (k, i, "x" * (i % 9)) for i in range(n)))


@fam
def long_string(n, k):
    t = "".join("abcdefghij"[i % 10] for i in range(n))
    return "char g%d[%d] = \"%s\";\nvoid e%d(void) { char l[%d] = \"%s\"; char *p; p = \"%s\"; log_s(g%d); log_s(l); log_s(p); log_i(sizeof(l)); }\n" % (k, n + 1, t, k, n + 1, t, t, k)


@fam
def typedef_nests(n, k):
    return ("typedef struct { int a; char c; } T%d_0; " % k + "".join("typedef struct { T%d_%d *a; int b; T%d_%d *c; } T%d_%d; " % (k, i - 1, k, i - 1, k, i) for i in range(1, n))
            + "typedef int (*F%d_0)(int a); " % k + "".join("typedef %s (*F%d_%d)(F%d_%d a, F%d_%d b); " % (["int", "F%d_%d" % (k, i - 1)][i % 5 == 0], k, i, k, i - 1, k, i - 1) for i in range(1, n))
            + "\nT%d_0 t%d; int f%d(int a) { return a + t%d.a; }\nint g%d(F%d_0 a, F%d_0 b) { return a(1) * 10 + b(2); }\n" % ((k,) * 7)
            + "void e%d(void) { T%d_%d v; F%d_%d p; F%d_1 q; v.b = 7; t%d.a = 3; q = g%d; log_i(v.b); log_i(sizeof(v)); log_i(sizeof(p)); log_i(q(f%d, f%d)); log_i(&v == &v); }\n" % (k, k, n - 1, k, n - 1, k, k, k, k, k))


@fam
def identifiers(n, k):
    ln = n * 2
    a, b, f, t, m = ["%s_%d" % (c * ln, k) for c in "abftm"]
    return "int %s; struct %s { int %s; };\nint %s(int %s) { return %s + %s; }\nvoid e%d(void) { struct %s s; s.%s = 3; %s = 4; log_i(%s(s.%s)); log_i(%s); }\n" % (a, t, m, f, b, b, a, k, t, m, a, f, m, a)


@fam
def cases(n, k):
    return "int f%d(int a) { switch (a) { %s default: return -1; } }\nvoid e%d(void) { int i; unsigned int s = 1U; for (i = 0; i < %d; i++) s = s * 31U + f%d(i * 3); log_u(s); log_i(f%d(1)); }\n" % (k, " ".join("case %d: return %d;" % (i * 3, i * i % 1000) for i in range(n)), k, n, k, k)


@fam
def else_ifs(n, k):
    return "int f%d(int a) { %s return -1; }\nvoid e%d(void) { int i; unsigned int s = 1U; for (i = 0; i < %d; i++) s = s * 31U + f%d(i); log_u(s); }\n" % (k, "".join("if (a == %d) return %d; else " % (i, i * 7 % 100) for i in range(n)), k, n + 2, k)


@fam
def parameters(n, k):
    n = min(n, 400)
    return "int f%d(%s) { return %s; }\nvoid e%d(void) { log_i(f%d(%s)); }\n" % (k, ", ".join("%s p%d" % (["int", "char", "long"][i % 3], i) for i in range(n)), " ^ ".join("p%d" % i for i in range(n)), k, k, ", ".join(str(i % 128) for i in range(n)))


@fam
def members(n, k):
    return "struct s%d { %s }; struct s%d g%d;\nvoid e%d(void) { struct s%d l; struct s%d *p; unsigned int s = 1U; p = &g%d; %s log_u(s); log_i(sizeof(l)); }\n" % (
        k, " ".join("%s m%d;" % (["int", "char", "long", "char"][i % 4], i) for i in range(n)), k, k, k, k, k, k, " ".join("l.m%d = %d; p->m%d = l.m%d + 1; s = s * 31U + g%d.m%d;" % (i, i % 100, i, i, k, i) for i in range(n)))


@fam
def enumerators(n, k):
    return "enum e_%d { %s };\nvoid e%d(void) { unsigned int s = 1U; %s log_u(s); }\n" % (k, ", ".join("E%d_%d%s" % (k, i, " = %d" % (i * 2) if i % 7 == 3 else "") for i in range(n)), k, " ".join("s = s * 31U + E%d_%d;" % (k, i) for i in range(n)))


@fam
def typedefs(n, k):
    return "typedef int T%d_0; %s\nvoid e%d(void) { %s log_i(v%d); log_i(sizeof(T%d_%d)); }\n" % (k, " ".join("typedef T%d_%d T%d_%d;" % (k, i, k, i + 1) for i in range(n)), k, " ".join("T%d_%d v%d = %d;" % (k, i, i, i % 9) for i in range(n + 1)), n, k, n)


@fam
def initializer(n, k):
    return "long g%d[%d] = {%s};\nvoid e%d(void) { int l[%d] = {%s}; int i; unsigned long s = 1UL; for (i = 0; i < %d; i++) s = s * 31UL + g%d[i] + l[i]; log_m(s); }\n" % (k, n, ", ".join(str(i * i - 50) for i in range(n)), k, n, ", ".join(str(i * 3) for i in range(n)), n, k)


@fam
def struct_initializer(n, k):
    return "struct s%d { int a; char b[3]; long c; }; struct s%d g%d[%d] = {%s};\nvoid e%d(void) { int i; unsigned long s = 1UL; for (i = 0; i < %d; i++) s = s * 31UL + g%d[i].a + g%d[i].b[1] + g%d[i].c; log_m(s); }\n" % (
        k, k, k, n, ", ".join("{%d, \"%c%c\", %d}" % (i, 97 + i % 26, 65 + i % 26, i * 5) for i in range(n)), k, n, k, k, k)


@fam
def big_frame(n, k):
    """displacements of one, two and four bytes"""
    sz = n * 100
    return "void e%d(void) { char a[%d]; int x; long b[%d]; char c[7]; int i; x = 5; for (i = 0; i < 7; i++) c[i] = i; for (i = 0; i < %d; i++) { b[i] = i * 3; } for (i = 0; i < %d; i += %d) a[i] = i & 127; a[%d] = 9; log_i(x); log_i(c[6]); log_l(b[%d]); log_c(a[%d]); log_c(a[0]); }\n" % (k, sz, n, n, sz, max(1, n // 7), sz - 1, n - 1, sz - 1)


@fam
def big_frame_calls(n, k):
    """what is called must not reach what the caller keeps, however much that is"""
    sz = n * 350
    return "int l%d(int a) { char q[60]; int i; for (i = 0; i < 60; i++) q[i] = a; return q[a & 31]; } void e%d(void) { char a[%d]; int i; unsigned int s; for (i = 0; i < %d; i += %d) a[i] = i; a[%d] = 9; s = 1U; log_i(l%d(3)); dirty(); for (i = 0; i < %d; i += %d) s = s * 31U + a[i]; log_u(s); log_c(a[%d]); log_i(l%d(5)); log_c(a[0]); }\n" % (
        k, k, sz, sz, 17 if n < 300 else 97, sz - 1, k, sz, 17 if n < 300 else 97, sz - 1, k)


@fam
def big_global(n, k):
    sz = n * 20000
    return "char a%d[%d]; long b%d[%d]; int c%d;\nvoid e%d(void) { a%d[%d] = 3; a%d[0] = 4; b%d[%d] = 7; c%d = 8; log_c(a%d[%d]); log_c(a%d[0]); log_l(b%d[%d]); log_l(b%d[0]); log_i(c%d); log_i(sizeof(a%d)); }\n" % (k, sz, k, n, k, k, k, sz - 1, k, k, n - 1, k, k, sz - 1, k, k, n - 1, k, k, k)


@fam
def parentheses(n, k):
    n = min(n, 250)
    return "void e%d(void) { int a = 3; log_i(%sa%s); log_i(%sa%s); }\n" % (k, "(" * n, ")" * n, "(" * n, " + 1)" * n)


@fam
def unaries(n, k):
    n = min(n, 250)
    return "void e%d(void) { int a = 3; int *p = &a; log_i(%sa); log_i(%sa); log_i(%s*p); }\n" % (k, "- " * n, "!" * n, "*&" * n)


@fam
def long_sum(n, k):
    return "void e%d(void) { int a = 3; int b = 5; log_i(%s); log_i(%s); log_i(%s); }\n" % (k, " + ".join(["a", "b", "1"][i % 3] for i in range(n)), " && ".join("a < %d" % (i + 4) for i in range(n)), " || ".join("b == %d" % (i + 6) for i in range(n)))


@fam
def conditionals(n, k):
    n = min(n, 6)  # each level holds a register: past seven the compiler gives up, which it says
    return "int f%d(int a) { return %s 77; }\nvoid e%d(void) { log_i(f%d(0)); log_i(f%d(%d)); log_i(f%d(%d)); }\n" % (k, "".join("a == %d ? %d : " % (i, i * 3) for i in range(n)), k, k, k, n - 1, k, n)


@fam
def blocks(n, k):
    n = min(n, 250)
    return "void e%d(void) { int a = 0; %s a += 1; %s log_i(a); }\n" % (k, "{ int a%d = 1; " * 0 + " ".join("{ int b%d = a + %d; a = b%d;" % (i, i % 3, i) for i in range(n)), "}" * n)


@fam
def ifs(n, k):
    n = min(n, 200)
    return "void e%d(void) { int a = %d; %s log_i(100); %s log_i(a); }\n" % (k, n, "".join("if (a > %d) { a--; " % (i % 3) for i in range(n)), "} else log_i(7);" * n)


@fam
def loops(n, k):
    d = min(n, 12)
    return "void e%d(void) { int s = 0; %s %s s++; log_i(s); }\n" % (k, " ".join("int i%d;" % i for i in range(d)), "".join("for (i%d = 0; i%d < %d; i%d++) " % (i, i, 2 if i < 9 else 1, i) for i in range(d)))


@fam
def calls_nested(n, k):
    n = min(n, 200)
    return "int f%d(int a) { return a * 3 %% 1001; }\nvoid e%d(void) { log_i(%s7%s); }\n" % (k, k, ("f%d(" % k) * n, ")" * n)


@fam
def recursion(n, k):
    return "int f%d(int a) { char pad[40]; pad[a & 31] = a; if (a == 0) return 0; return f%d(a - 1) + (pad[a & 31] & 1); }\nvoid e%d(void) { log_i(f%d(%d)); }\n" % (k, k, k, k, n * 10)


@fam
def dimensions(n, k):
    d = min(n, 12)
    return "int a%d%s;\nvoid e%d(void) { a%d%s = 5; a%d%s = 6; log_i(a%d%s); log_i(a%d%s); log_i(sizeof(a%d)); }\n" % (k, "[2]" * d, k, k, "[1]" * d, k, "[0]" * d, k, "[1]" * d, k, "[0]" * d, k)


@fam
def pointers(n, k):
    d = min(n, 60)
    return "void e%d(void) { int v = 5; %s log_i(%sp%d); %sp%d = 8; log_i(v); }\n" % (k, "int *p1 = &v; " + " ".join("int %sp%d = &p%d;" % ("*" * i, i, i - 1) for i in range(2, d + 1)), "*" * d, d, "*" * d, d)


@fam
def struct_chain(n, k):
    d = min(n, 60)
    return "struct s%d_0 { int v; };\n%svoid e%d(void) { struct s%d_%d x; struct s%d_%d *p; p = &x; x.%sv = 4; log_i(p->%sv); log_i(sizeof(x)); }\n" % (k, "".join("struct s%d_%d { char c; struct s%d_%d m; };\n" % (k, i, k, i - 1) for i in range(1, d + 1)), k, k, d, k, d, "m." * d, "m." * d)


@fam
def branches_far(n, k):
    """jumps over long stretches of code"""
    body = " ".join("a = a * 3 + %d; a &= 65535;" % (i % 10) for i in range(n))
    return "void e%d(void) { int a = 1; int i; for (i = 0; i < 3; i++) { if (i == 1) { %s if (a == 70000) break; } else { %s if (a == 70000) continue; } log_i(a); } }\n" % (k, body, body)


def many(n):
    """numbers of labels and strings with one digit more than those of usual programs"""
    out = []
    for f, what in ((lambda j: "if (a == %d) s = s * 3U + %d;" % (j, j % 7), "labels"), (lambda j: "p = \"%s\"; s = s * 3U + p[1];" % (chr(65 + j % 26) + chr(97 + j // 26 % 26)), "strings")):
        k = nid()
        fs = ["unsigned int f%d_%d(int a) { unsigned int s = 1U; char *p; %s return s; }\n" % (k, i, " ".join(f(j) for j in range(i * 100, i * 100 + 100))) for i in range(n // 100)]
        out.append(Case("".join(fs) + "void e%d(void) { unsigned int s = 1U; int i; for (i = 0; i < %d; i += %d) { %s } log_u(s); }\n" % (
            k, n, n // 7, " ".join("s = s * 31U + f%d_%d(i + %d);" % (k, i, i * 37 % 100) for i in range(n // 100))), "e%d" % k, tag="size: many " + what))
    return out


SMALL = [1, 2, 3, 5, 8, 13, 31, 64, 127, 128, 129]


def sizes(r, large):
    out = []
    for f in FAMILIES:
        for n in [r.choice(SMALL[1:4]), r.choice(SMALL[4:]), r.choice([250, 256, 257, 300]), large]:
            if n == large and f in (struct_initializer, members, enumerators, else_ifs):
                n = min(n, 1200)
            k = nid()
            out.append(Case(f(n, k), "e%d" % k, tag="size: " + f.__name__))
    return out


# ---- order and number of parts
def orders(i):
    """the same independent parts in other orders and companies"""
    r = rng("c16o", i)
    parts = []
    while len(parts) < 8:
        x = r.random()
        k = nid() + 700000
        if x < 0.3:
            u, e = program(r, k, size=2, stmts=4)[:2]
            parts.append(Case(u, e, tag="orders"))
        elif x < 0.5:
            u, e = Scopes(r, "_o%d" % k).program()
            parts.append(Case(u, e, tag="orders"))
        elif x < 0.6:
            u, e = classic(r, k)[:2]
            parts.append(Case(u, e, tag="orders"))
        else:
            c = r.choice(inputs.FRAGMENTS)(r)
            if c.may_reject:
                continue
            c.u = c.u.replace("idf(", "ev2(4, ")
            c.tag = "orders"
            parts.append(c)
    groups = []
    for _ in range(tier(3, 6)):
        g = r.sample(parts, r.randrange(2, 9))
        groups.append(g)
    return groups


# ---- as a user builds: main, the system's linker, several kinds of executable
LOGC = r"""#include <stdio.h>
void log_c(char v) { printf("c%d\n", v); } void log_i(int v) { printf("i%d\n", v); } void log_u(unsigned v) { printf("u%u\n", v); } void log_l(long v) { printf("l%ld\n", v); }
void log_m(unsigned long v) { printf("m%lu\n", v); } void log_q(long long v) { printf("q%lld\n", v); } void log_v(unsigned long long v) { printf("v%llu\n", v); }
int ev(int id) { printf("ev%d\n", id); return id; } int ev2(int id, int r) { printf("ev2 %d %d\n", id, r); return r; } char evc(int id, char r) { printf("evc%d %d\n", id, r); return r; } long evl(int id, long r) { printf("evl%d %ld\n", id, r); return r; }
void log_s(char *s) { printf("s%s\n", s); } void log_b(char *p, int n) { for (int i = 0; i < n; i++) printf("%02x", (unsigned char)p[i]); printf("\n"); } void dirty(void) { }
"""
MODES = {"default": [], "no-pie": ["-no-pie"], "pie": ["-pie"], "static": ["-static"], "now": ["-Wl,-z,now"], "gc-sections": ["-Wl,--gc-sections"], "lld-like order": ["-Wl,--sort-section=name"]}


def user_builds(ck, eng, n):
    d = subdir("c16-main")
    lc = os.path.join(d, "log.c")
    with open(lc, "w") as f:
        f.write(LOGC)
    lo = cc_obj(lc, os.path.join(d, "log.o"))

    def one(i):
        r = rng("c16m", i)
        u, e = (classic(r, i) if i % 3 == 0 else Scopes(r, "_%d" % i).program() if i % 3 == 1 else program(r, i, size=4, stmts=6))[:2]
        text = PRELUDE + u + "\n" + r.choice(["int main(void) { %s(); return %d; }", "int main(int argc, char **argv) { %s(); if (argc > 3) return 99; return %d; }", "int main(void) { %s(); %s(); return %d; }".replace("%s(); %s();", "%s();")]) % (e, r.randrange(120)) + "\n"
        p = os.path.join(d, "m%d.c" % i)
        with open(p, "w") as f:
            f.write(text)
        b = eng.compile_umlcc(p)
        if b.status == "timeout":
            ck.inconclusive += 1
            return
        if b.status != "ok":
            ck.violation("%s: %s\n%s" % (LABEL[b.status], b.detail, u[:900]), {"main.c": text}, key=("main", b.status))
            return
        ref = os.path.join(d, "r%d" % i)
        must(["gcc", "-std=gnu99", "-w", "-fwrapv", "-fno-strict-aliasing", p, lo, "-o", ref], "reference build of a whole program")
        want = run([ref], timeout=60)
        if want.timeout or want.rc < 0:
            ck.count("reference_died")
            os.unlink(ref)
            return
        for m in r.sample(list(MODES), 3):
            exe = os.path.join(d, "u%d" % i)
            l = run(["gcc", p[:-2] + ".s", lo, "-o", exe] + MODES[m], timeout=60)
            if l.rc != 0:
                ck.violation("the assembly does not link (%s): %s" % (m, l.err.decode("latin-1")[:500]), {"main.c": text}, key=("mode", m))
                continue
            got = run([exe], timeout=60)
            os.unlink(exe)
            ck.count("whole programs linked: " + m)
            ck.observe((text, m))
            if got.timeout or (got.rc, got.out) != (want.rc, want.out):
                ck.violation("a whole program linked as %s behaves otherwise: status %s and %d bytes of output, expected %s and %d\n%s" % (m, got.rc, len(got.out), want.rc, len(want.out), u[:900]), {"main.c": text, "log.c": LOGC}, key=("behaviour", m))
        for q in (p, p[:-2] + ".s", ref):
            os.unlink(q)
    pmap(one, range(n))


def check():
    ck = Check("C16", "one form of the accepted language accepted and assembled; one program of a family at a given size whose parts all enter a logged result compared with two references; "
               "the same parts in another order and company; one whole program linked in several modes",
               assumptions=["data/accepted.txt lists the forms of the accepted language"])
    eng = Engine()
    accepted_forms(ck, eng)
    like_types(ck, eng)
    placed(ck, eng)
    r = rng("c16")
    cases_ = sizes(r, tier(1500, 3000)) + many(tier(10400, 30000))
    for _ in range(tier(0, 10)):
        cases_ += sizes(r, r.choice([500, 700, 1000, 2000]))
    r.shuffle(cases_)
    eng.evaluate(ck, cases_, size=4)
    for g in itertools_chain(pmap_orders(tier(10, 150))):
        GROUPS.append(g)
    pmap(lambda g: eng_group(ck, eng, g), GROUPS)
    user_builds(ck, eng, tier(60, 900))
    ck.finish(min_evaluations=5000)


GROUPS = []


def pmap_orders(n):
    return [orders(i) for i in range(n)]


def itertools_chain(xs):
    return [g for x in xs for g in x]


def eng_group(ck, eng, g):
    for c, kind, detail, good, exc in eng.batch(g):
        ck.count("parts_in_other_orders")
        for s, ev in good:
            ck.observe((c.u, s, len(g), "order"))
        if kind is None:
            continue
        if kind == "timeout":
            ck.inconclusive += 1
            continue
        ck.violation("%s (parts in another order): %s\n%s" % (LABEL[kind], detail, c.u[:800]), eng.replay_files(g), key=("order", kind, detail[:60]))


if __name__ == "__main__":
    main(check)
