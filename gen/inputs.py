"""Inputs for the monitors of the compiler itself: valid programs of every kind, ill-formed ones,
deeply nested and long ones, truncated ones and plain bytes."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "checks"))
import c01, c02, c03, c04, c05, c06
for _m in (c02, c03, c04, c05, c06):
    _m.N = c01.N        # one counter: names stay unique across the fragments of a file
import illformed
from diff import PRELUDE
from proggen import program
from classics import classic, ALL
import ctok

DECLS = """struct N { int v; struct N *n; int a[4]; };
int g; int ga[8]; int *gp; struct N gn; struct N *gq; char gc; long gl;
int f(int x); int f2(int x, int y); void fv(void);
"""


FRAGMENTS = [lambda r: c01.composites(r, 1)[0], lambda r: c01.three_operand(r, 1)[0], lambda r: c01.precedence(r, 1)[0], lambda r: r.choice(c01.unary_forms(r, r.choice(c01.TYPES), True)),
             lambda r: r.choice(c01.binary_forms(r, r.choice(list(c01.BINARY)), r.choice(c01.TYPES), r.choice(c01.TYPES), True)),
             lambda r: c02.random_functions(r, 1)[0], lambda r: c02.logic_trees(r, 1)[0], lambda r: c02.switches(r, 1)[0], lambda r: c02.loops(r, 1)[0], lambda r: c02.scattered_labels(r, 1)[0],
             c03.callee, c03.caller, c03.nested, c03.pointers, c03.recursion, c03.saved, c03.frames,
             c04.shared, lambda r: c04.named(r, "local"), lambda r: c04.named(r, "global"), c04.host_globals, c04.arithmetic, c04.sizes, c04.pointers,
             c05.local, c05.global_, lambda r: c05.large(r, "local"), lambda r: c05.large(r, "global"), c05.several,
             lambda r: c06.spine(r, r.randrange(6), r.choice(c06.INNER), 4), lambda r: c06.two_calls(r, 4), lambda r: c06.args(r, 4), lambda r: c06.lvalues(r, 4), lambda r: c06.heavy(r, 4)]


def fragment(rnd):
    """a case of one of the behavioural checks, as source text"""
    for _ in range(50):
        c = rnd.choice(FRAGMENTS)(rnd)
        if not c.may_reject:
            break
    return c.u.replace("idf(", "ev2(4, ") + "\n"


def fragments(rnd, n):
    return PRELUDE + "".join(fragment(rnd) for _ in range(n))


def valid(rnd, k):
    """a valid program; k makes its names unique"""
    if rnd.random() < 0.4:
        return fragments(rnd, rnd.choice([1, 1, 2, 5]))
    if rnd.random() < 0.3:
        return PRELUDE + classic(rnd, k)[0]
    return PRELUDE + program(rnd, k, size=rnd.choice([2, 3, 4, 7]), stmts=rnd.choice([4, 8, 14]))[0]


def small(rnd, k):
    if k % 2:
        return fragments(rnd, 1)
    return PRELUDE + (classic(rnd, k)[0] if k % 3 == 0 else program(rnd, k, size=2, stmts=rnd.choice([2, 3, 5]))[0])


def catalogue(rnd, copies=1):
    """ill-formed programs"""
    return [t for _, t in illformed.programs(rnd, copies)]


def fn(body, head="int h(int a, int b)"):
    return "%s%s { %s }\n" % (DECLS, head, body)


def _wrap(pre, core, post, n):
    return pre * n + core + post * n


# name -> (text of depth n, flat): flat constructs are repeated side by side, the others nest
NEST = {
    "parentheses": lambda n: fn("return %s;" % _wrap("(", "a", ")", n)),
    "minus": lambda n: fn("return %sa;" % ("- " * n)),
    "not": lambda n: fn("return %sa;" % ("!" * n)),
    "complement": lambda n: fn("return %sa;" % ("~" * n)),
    "casts": lambda n: fn("return %sa;" % ("(long)(int)" * (n // 2))),
    "deref of address": lambda n: fn("return %sa;" % ("*&" * n)),
    "sizeof": lambda n: fn("return %s;" % _wrap("sizeof(", "a", ")", n)),
    "left sums": lambda n: fn("return %s;" % _wrap("(", "a", " + 1)", n)),
    "right sums": lambda n: fn("return %s;" % _wrap("(a - ", "a", ")", min(n, 6))),
    "logical and": lambda n: fn("return %s;" % _wrap("(a && ", "b", ")", n)),
    "logical or left": lambda n: fn("return %s;" % _wrap("(", "b", " || a)", n)),
    "conditional right": lambda n: fn("return %s;" % _wrap("a ? b : (", "b", ")", n)),
    "conditional middle": lambda n: fn("return %s;" % _wrap("a ? (", "b", ") : 1", n)),
    "conditional condition": lambda n: fn("return %s;" % _wrap("(", "a", " ? b : 3)", n)),
    "calls": lambda n: fn("return %s;" % _wrap("f(", "a", ")", n)),
    "calls second": lambda n: fn("return %s;" % _wrap("f2(1, ", "a", ")", min(n, 200))),
    "subscripts": lambda n: fn("return %s;" % _wrap("ga[", "a", "]", n)),
    "member chain": lambda n: fn("return gq%s->v;" % ("->n" * n)),
    "assignments": lambda n: fn("return %s;" % ("a = b = " * (n // 2) + "1")),
    "blocks": lambda n: fn(_wrap("{", "a = 1;", "}", n) + "return a;"),
    "ifs": lambda n: fn("if (a) " * n + "a = 1; return a;"),
    "if else chain": lambda n: fn("if (a == 1) b = 1; else " * n + "a = 1; return a;"),
    "if in else blocks": lambda n: fn(_wrap("if (a) { b = 1; } else { ", "b = 2;", "}", n) + "return a;"),
    "whiles": lambda n: fn("while (a) " * n + "break; return a;"),
    "while blocks": lambda n: fn(_wrap("while (a) { ", "break;", "}", n) + "return a;"),
    "fors": lambda n: fn("for (a = 0; a < 2; a++) " * n + "continue; return a;"),
    "for blocks": lambda n: fn(_wrap("for (;;) { ", "break;", "}", n) + "return a;"),
    "switches": lambda n: fn(_wrap("switch (a) { case 1: ", "b = 1;", "default: ; }", n) + "return a;"),
    "cases": lambda n: fn("switch (a) { %s ; } return a;" % "".join("case %d: " % i for i in range(n))),
    "local scopes": lambda n: fn(_wrap("{ int a = 1; ", "a = 2;", "}", n) + "return a;"),
    "local structs": lambda n: fn(_wrap("{ struct S { int a; } s; s.a = 1; ", "a = 2;", "}", n) + "return a;"),
    "pointers": lambda n: "int %sp;\n" % ("*" * n),
    "pointer parameter": lambda n: "int f(int %sp);\n" % ("*" * n),
    "array dimensions": lambda n: "int a%s;\n" % ("[1]" * n),
    "array dimensions and use": lambda n: "int a%s; int h(int x) { return a%s; }\n" % ("[1]" * n, "[0]" * n),
    "declarator parentheses": lambda n: "int %s;\n" % _wrap("(", "x", ")", n),
    "pointer to array": lambda n: "int %s;\n" % _wrap("(*", "p", ")[2]", n),
    "function pointers": lambda n: "int %s;\n" % _wrap("(*", "p", ")(int x)", n),
    "function pointer parameters": lambda n: "int f(%s);\n" % _wrap("int (*p)(", "int x", ")", n),
    "nested structs": lambda n: "%s\n" % _wrap("struct { ", "int x;", "} m;", n),
    "nested named structs": lambda n: "".join("struct S%d { %s " % (i, "") for i in range(n)) + "int x; " + "".join("} m%d; " % i for i in range(n)) + "\n",
    "initializer braces": lambda n: "int a%s = %s;\n" % ("[1]" * n, _wrap("{", "5", "}", n)),
    "local initializer braces": lambda n: fn("int q%s = %s; return 1;" % ("[1]" * n, _wrap("{", "5", "}", n))),
    "scalar in braces": lambda n: fn("int q = %s; return 1;" % _wrap("{", "5", "}", n)),
    "nested sizeof types": lambda n: fn("return %s;" % _wrap("sizeof(int %s)" % ("*" * n), "", "", 1)),
    "typedef chain": lambda n: "typedef int T0; " + "".join("typedef T%d T%d; " % (i, i + 1) for i in range(n)) + "T%d x;\n" % n,
    "typedef pointer chain": lambda n: "typedef int T0; " + "".join("typedef T%d *T%d; " % (i, i + 1) for i in range(n)) + "T%d x;\n" % n,
    "typedef array chain": lambda n: "typedef int T0; " + "".join("typedef T%d T%d[1]; " % (i, i + 1) for i in range(n)) + "T%d x;\n" % n,
    "increments": lambda n: fn("return %s;" % " + ".join(["a++"] * n)),
    "products": lambda n: fn("return %s;" % " * ".join(["a"] * n)),
    "long sum": lambda n: fn("return %s;" % " + ".join(["a"] * n)),
    "long and": lambda n: fn("return %s;" % " && ".join(["a"] * n)),
    "compound assignment chain": lambda n: fn("return %s;" % ("a += " * n + "1")),
    "dereferences": lambda n: "int %sp; int h(int x) { return %sp; }\n" % ("*" * n, "*" * n),
    "calls through pointers": lambda n: fn("int (*p)(int x) = f; return %s;" % _wrap("p(", "a", ")", n)),
    "double subscripts": lambda n: fn("return %s;" % _wrap("ga[ga[", "a", "]]", n // 2)),
    "struct pointers inside": lambda n: "".join("struct L%d { struct L%d *p; int v; }; " % (i, i + 1) for i in range(n)) + "struct L%d { int z; };\n" % n,
    "structs of structs": lambda n: "struct L0 { int v; }; " + "".join("struct L%d { struct L%d m; }; " % (i + 1, i) for i in range(n)) +
                          "int h(struct L%d *p) { return p->%sv; }\n" % (n, "m." * n),
    "shifts of calls": lambda n: fn("return %s;" % _wrap("(f(", "a", ") << 1)", n)),
    "divisions": lambda n: fn("return %s;" % _wrap("(", "a", " / 3 % 7)", n)),
    "mixed": lambda n: fn("return %s;" % _wrap("-(a ? f(~(", "b", ")) : 1)", n // 2)),
    "mixed statements": lambda n: fn(_wrap("if (a) { while (b) { switch (a) { case 1: ", "b = 1;", "break; } } } else a = 2;", n // 3) + "return a;"),
}

# unfinished or mismatched nests
OPEN = ["(", "{", "[", "int (", "int *(", "f(", "a ? ", "a ? b : ", "if (", "if (a) ", "while (", "for (", "switch (a) {", "case 1: ", "struct {", "struct S {", "enum {", "int f(", "int (*p)(", "int a[", "= {", "- ", "!", "*", "&", "sizeof(", "sizeof ", "(int)",
        "a = ", "a + ", "a && ", "ga[", "gq->", "++", "--", "else ", "return ", "int ", "typedef ", "*(", "&(", "f2(1,", "{ {", "int x = {", "->", ".", ",", ";", ")", "}", "]", "default:", "a, ", "case ", "1 ", "x ", "'", '"', "\\", "'a' ", '"s" ', "/", "0x", "0", "L", "."]


def opened(rnd, n):
    o = rnd.choice(OPEN)
    where = rnd.choice(["%s", "int h(int a, int b) { %s", "int h(int a, int b) { return %s", "int x = %s", "struct S { %s", "int h(int a, int b) { int y = %s", "int h(%s", "int a[%s", "enum E { A = %s", "typedef %s"])
    t = where % (o * n)
    if rnd.random() < 0.4:
        t += rnd.choice([")", "}", "]", ";", "1", "a", ")}", "; }", "1;}", "a)"]) * rnd.choice([1, n, n // 2 + 1])
    return DECLS + t + "\n"


def soup(rnd):
    n = rnd.choice([0, 1, 2, 3, 7, 20, 60, 200, 800])
    x = rnd.random()
    if x < 0.3:
        return bytes(rnd.randrange(256) for _ in range(n))
    if x < 0.5:
        return bytes(rnd.choice(b" \t\n\"'\\(){}[];,=+-*/%<>&|^!~?:.0123456789abxuULn#@$`\x00\x80\xff") for _ in range(n))
    return " ".join(rnd.choice(ctok.POOL) for _ in range(n)).encode()


def literal_soup(rnd):
    """one literal or identifier in every kind of place"""
    def chars(k):
        return "".join(rnd.choice(["a", "\\n", "\\0", "\\x41", "\\xff", "\\377", "\\", "\\x", "\\8", "\\?", "\\\"", "\\'", "\xe9", "\x01", "\\u", "\\1234", "\\x123", " ", "%", "\t", "\x7f", "\\400", "\\777", "\\xfff"]) for _ in range(k))
    lit = rnd.choice([
        lambda: "'%s'" % chars(rnd.choice([0, 1, 1, 1, 2, 5, 100])), lambda: '"%s"' % chars(rnd.choice([0, 1, 3, 10, 300])),
        lambda: "".join(rnd.choice("0123456789abcdefxXuUlL.eE+-_") for _ in range(rnd.choice([1, 2, 5, 20, 60, 400]))),
        lambda: "%d%s" % (rnd.getrandbits(rnd.randrange(1, 80)), rnd.choice(["", "U", "L", "UL", "LL", "ULL", "LLU", "LUL", "UU", "lL", "u"])),
        lambda: "0x%x%s" % (rnd.getrandbits(rnd.randrange(1, 80)), rnd.choice(["", "U", "L", "g", "x", "ULL"])),
        lambda: "0%o%s" % (rnd.getrandbits(rnd.randrange(1, 80)), rnd.choice(["", "8", "9", "L"])),
        lambda: "a" * rnd.choice([1, 31, 63, 64, 65, 127, 128, 255, 256, 257, 1000, 5000]),
        lambda: '"' + "x" * rnd.choice([62, 63, 64, 127, 128, 255, 256, 1023, 1024, 5000]) + '"',
    ])()
    place = rnd.choice(["int x = %s;", "char *p = %s;", "char s[] = %s;", "char s[4] = %s;", "int h(void) { return %s; }", "int h(void) { char s[5] = %s; return s[0]; }", "int h(int a) { switch (a) { case %s: return 1; } return 0; }", "enum E { A = %s };",
                        "int a[%s];", "int h(char *p) { return h(%s); }", "int %s;", "struct %s { int a; };", "%s", "int h(void) { return sizeof(%s); }", "int h(int a) { return a + %s; }", "int h(int a) { return a %s; }", "int h(int a) { %s; return 1; }"])
    return (place.replace("%s", lit) + rnd.choice(["\n", "", " "])).encode("latin-1", "replace")


def truncated(rnd, text):
    b = text.encode("latin-1") if isinstance(text, str) else text
    return b[:rnd.randrange(len(b) + 1)]
