"""C17: diagnostics account for every independent error and nothing else."""
import os, re, string, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "gen"))
from collections import Counter
from diff import *
from outcome import *
import illformed as I
import inputs, semgen
from proggen import program
from classics import classic
from scopegen import Scopes

ESC = re.compile(r"\x1b\[[0-9;]*m")


def lines(o):
    """the diagnostics of a compilation: every line that reports an error"""
    return [l.strip() for l in ESC.sub("", o.err.decode("latin-1")).split("\n") if "error" in l and "@@@@@" not in l]


def names_in(text):
    return set(re.findall(r"[A-Za-z_]\w*", text))


NOT_EXPR = set(I.EXPR["syntax"] + I.EXPR["types as values"] + I.EXPR["tokens"])


class Item:
    """one error: where it stands ('f' among the external declarations, else within a function) and the function it needs"""
    __slots__ = ("kind", "text", "ret", "solo")

    def __init__(self, kind, text, ret):
        self.kind, self.text, self.ret = kind, text, ret

    def alone(self):
        return self.text if self.kind == "f" else I.function(self.text, self.ret)


def place(r, x, misplaced):
    while True:
        name, pl = r.choice(I.PLACE)
        if not (misplaced and name in I.NO_LOOP):
            break
    return pl.replace("@R", "#R#").replace("@", x).replace("#R#", "@R")


def item(r, e, plain):
    kind, need, x = e
    if kind == "f":
        return Item("f", x, "")
    ret = need if need in ("v", "i") else r.choice("iv")
    if kind == "e":
        if x in NOT_EXPR:
            ret = "i"
        if plain:
            x = x + ";"
        else:
            ctx = r.choice(I.EXPR_CTX)
            x = ctx.replace("@", x)
            if "return" in ctx:
                ret = "i"
    body = x if plain else place(r, x, need == "o")
    return Item("b", body, ret)


class Diags:
    def __init__(self, ck, cc):
        self.ck, self.cc = ck, cc

    def refused(self, o, text, what):
        if o.timeout:
            self.ck.inconclusive += 1
            return False
        if o.rc != 1 or o.asm is not None:
            self.ck.violation("%s: expected a refusal, got %s\n%s" % (what, o.text(), text[-700:]), {"program.c": text}, key=(what, "not refused"))
            return False
        return True

    def singles(self, its):
        def one(it):
            text = I.ENV + it.alone() + "\n"
            o = self.cc(text)
            it.solo = None
            if not self.refused(o, text, "a single error"):
                return
            ls = lines(o)
            self.ck.observe(("single", text))
            self.ck.count("single errors")
            if len(ls) != 1:
                self.ck.violation("a single error gives %d diagnostics: %s\n%s" % (len(ls), " | ".join(ls), it.alone()), {"program.c": text}, key=("single", len(ls), it.text[:12]))
                return
            it.solo = ls[0]
            # what is quoted is written in the source
            for q in re.findall(r"'([A-Za-z_]\w*)'", ls[0]):
                if q not in names_in(text):
                    self.ck.violation("the diagnostic names '%s', which is not in the source: %s\n%s" % (q, ls[0], it.alone()), {"program.c": text}, key=("quoted",))
        pmap(one, its)

    def combined(self, text, want, what, files=None):
        o = self.cc(text)
        if not self.refused(o, text, what):
            return
        got = Counter(lines(o))
        want = Counter(want)
        self.ck.observe((what, text))
        self.ck.count(what)
        self.ck.count("errors_accounted_for", sum(want.values()))
        if got != want:
            miss, more = want - got, got - want
            self.ck.violation("%s: %d errors, %d diagnostics; missing: %s; unexpected: %s" % (what, sum(want.values()), sum(got.values()), "; ".join(sorted(miss))[:400] or "none", "; ".join(sorted(more))[:400] or "none"),
                              dict(files or {}, **{"program.c": text}), key=(what, bool(miss), bool(more)))


# ---- correct code to stand between
def correct(r, k):
    x = r.random()
    if x < 0.35:
        return program(r, k, size=2, stmts=r.choice([2, 4]))[0]
    if x < 0.55:
        return classic(r, k)[0]
    if x < 0.7:
        return Scopes(r, "_c%d" % k).program()[0]
    c = inputs.fragment(r)
    return c


STMTS_OK = ["gi = 1;", "gi++;", "{ int ok1_ = gi; gi = ok1_ + 1; }", "if (gi) gl = 2; else gl = 3;", "while (gi) { gi--; if (gi == 3) break; }", "for (gi = 0; gi < 3; gi++) { if (gi == 1) continue; gl++; }",
            "switch (gi) { case 1: gl = 1; break; case 2: default: gl = 2; }", "f1(gi);", "fv();", "gps->n->a = gs.arr[1];", "{ struct OK2_ { int a; } ok2_; ok2_.a = 1; }", "{ enum { OK3_, OK4_ }; gi = OK4_; }", "{ typedef int OK5_; OK5_ ok5_ = 1; gi = ok5_; }",
            "for (int ok6_ = 0; ok6_ < 2; ok6_++) gi += ok6_;", "*gp = ga[gi & 3];", "gp = ga;", ";", "{ }", "while (1) { switch (gi) { case 5: continue; default: ; } break; }", "gi = gi && gl || !gc;", "gl = gi ? gc : gu;", "gcp = \"text\";"]
DECLS_OK = ["int w%d_(int x) { return x + gi; }", "int w%d_; ", "struct W%d_ { int q; struct W%d_ *n; }; struct W%d_ w%d_;", "enum { WE%d_ }; int w%d_ = WE%d_;", "typedef struct S *WT%d_; WT%d_ w%d_;", "void w%d_(void) { switch (gi) { case 1: gi = 2; break; default: gi = 3; } while (gi) { break; } }", "int w%d_(int zz1, char zz2) { int zz = 1; { int zz = 2; gi = zz; } return zz; }",
            "int w%d_[3] = {1, 2};", "char *w%d_(char *s) { return s; }", "int w%d_(void);"]


def combine(r, its, k):
    """a program with all the errors, and what stands around them"""
    out, i = [], 0
    n = len(its)
    its = its[:]
    uniq = [k * 1000]

    def ok():
        uniq[0] += 1
        d = r.choice(DECLS_OK)
        return d.replace("%d", str(uniq[0]))
    out.append(ok() if r.random() < 0.3 else "")
    while its:
        it = its.pop()
        if it.kind == "f":
            out.append(it.text)
        else:
            group = [it]
            for other in its[:]:
                if len(group) < 12 and other.kind != "f" and other.ret == it.ret and r.random() < 0.5 and not (names_in(other.text) & set().union(*[names_in(g.text) for g in group]) & LOCALS):
                    group.append(other)
                    its.remove(other)
            body = []
            for g in group:
                # each error in a block of its own, or among the items of the same block
                x = g.text
                if r.random() < 0.3:
                    x = "{ %s }" % x
                if r.random() < 0.4:
                    body.append(r.choice(STMTS_OK))
                body.append(x)
            if r.random() < 0.4:
                body.append(r.choice(STMTS_OK))
            uniq[0] += 1
            out.append(I.function("\n".join(body), it.ret).replace(" m_(", " m%d_(" % uniq[0]))
        if r.random() < 0.3:
            out.append(ok())
    return "\n".join(out) + "\n"


GLOBAL = names_in(I.ENV)
LOCALS = set()
PLACES = {"l_", "u_", "a_", "b_", "c_", "d1_", "d2_", "d3_", "d4_"}


def locals_of(es):
    """names which an entry may declare: kept apart when entries share a block"""
    for k, need, x in es:
        for n in names_in(x):
            if n not in GLOBAL and not n.startswith("zz"):
                LOCALS.add(n)
    LOCALS.update(PLACES)


# ---- names, spelled at random: [(program, names each of which one diagnostic mentions)]
def spell(r):
    n = r.choice([1, 2, 3, 5, 8, 13, 31, 63, 64, 100, 200, 250, 255, 256, 300, 600, 1000, 4000])
    while True:
        s = r.choice(string.ascii_letters + "_") + "".join(r.choice(string.ascii_letters + string.digits + "_") for _ in range(n - 1))
        if s not in GLOBAL and s not in WORDS:
            return s


WORDS = set("auto break case char const continue default do double else enum extern float for goto if inline int long register restrict return short signed sizeof static struct switch typedef union unsigned void volatile while _Bool _Complex _Imaginary int main m_ prm prs x a b c d l m n o p q s t u v w y z".split())
# # is the offending name, % another name of its own
NAMED = ["int m@(int p) { #; return 0; }", "int m@(int p) { return # + 1; }", "int m@(int p) { # = 1; return 0; }", "int m@(int p) { #(p); return 0; }", "int m@(int p) { gi = gs.#; return 0; }", "int m@(int p) { gi = gps->#; return 0; }", "int m@(int p) { gps->n->n->#; return 0; }",
         "int m@(int p) { int #; long #; return 0; }", "int #; char #;", "struct %q { int #; char #; };", "struct # { int a; }; struct # { int b; };", "enum # { %a }; enum # { %b };", "enum { #, # };", "int m@(int #, long #) { return 0; }", "int m@(int #) { int #; return 0; }",
         "int m@(int p) { struct %q #; return 0; }", "int m@(int p) { { int #; # = 1; } # = 2; return 0; }", "struct %q #;", "int m@(struct I #) { return 0; }", "struct %q { struct I #; };", "struct %q { int #(void); };", "int #(void) { return 1; } int #(void) { return 2; }", "int m@(int p) { enum { # }; int #; return 0; }",
         "int m@(int p) { if (p) { while (p) { switch (p) { case 1: p = #; } } } return 0; }", "int m@(int p) { int %l = 1; { long %m = #; } return %l; }", "int m@(int p) { for (int %i = 0; %i < #; %i++) ; return 0; }", "int m@(int p) { for (int # = 0; p; ) ; return #; }", "int m@(int p) { f2(1, #); return 0; }", "int m@(int p) { int %l[3] = {1, #, 2}; return 0; }",
         "int %a[#];", "enum { %a = # };", "int m@(int p) { switch (p) { case #: ; } return 0; }", "int m@(int p) { return sizeof(#); }", "void #; ", "int m@(int p) { void #; return 0; }", "int m@(int p) { struct % { int %x; } %s; %s.#; return 0; }", "enum # { %a }; struct # %v;", "struct # { int a; }; enum # %v;",
         "int m@(int p) { int %x; %x = p; return %x + #; }", "int m@(int p) { # && p; return 0; }", "int m@(int p) { return p ? # : 1; }", "int m@(int p) { return p ? 1 : #; }", "int m@(int p) { gp = &#; return 0; }", "int m@(int p) { return -#; }", "int m@(int p) { return ga[#]; }", "int m@(int p) { p += #; return *#2; }"]


def named(r, k):
    tmpl = r.sample(NAMED, r.randrange(1, 12))
    bad, text = [], []
    used = set()

    def fresh():
        while True:
            s = spell(r)
            if s not in used:
                used.add(s)
                return s
    for j, t in enumerate(tmpl):
        t = t.replace("#2", "gp")
        b = fresh()
        loc = {}
        t = re.sub(r"%(\w?)", lambda m: loc.setdefault(m.group(1), None) or loc.__setitem__(m.group(1), fresh()) or loc[m.group(1)], t)
        text.append(t.replace("#", b).replace("@", "%d_" % j))
        bad.append(b)
    return I.ENV + "\n".join(text) + "\n", bad


# ---- lists: which elements of a list are wrong
def listed(r, k):
    n = r.choice([1, 2, 3, 4, 7, 12, 30, 30, r.choice([90, 140, 300, 700])])
    wrong = sorted(r.sample(range(n), r.randrange(1, n + 1)))
    w = lambda i: i in wrong
    nm = ["%s%d_%d" % (r.choice("abq"), k, i) for i in range(n)]
    kind = r.randrange(19)
    if kind >= 14:
        # errors of several sorts in one list: names declared again, wrong types, unknown names, and the number of the elements
        return mixed(r, k, kind - 14)
    if kind == 0:
        t = "struct L%d { %s };" % (k, " ".join(("struct I %s;" if w(i) else r.choice(["int %s;", "char *%s;", "struct I *%s;", "int %s[3];"])) % nm[i] for i in range(n)))
    elif kind == 1:
        t = "enum L%d { %s };" % (k, ", ".join("%s%s" % (nm[i], " = u_%s" % nm[i] if w(i) else r.choice(["", " = %d" % (i * 3)])) for i in range(n)))
    elif kind == 2:
        t = "int l%d(%s) { return 0; }" % (k, ", ".join(("struct I %s" if w(i) else r.choice(["int %s", "struct I *%s", "char %s[3]"])) % nm[i] for i in range(n)))
    elif kind == 3:
        t = "int l%d(%s);\nint k%d(int p) { return l%d(%s); }" % (k, ", ".join("int %s" % x for x in nm), k, k, ", ".join("u_" + nm[i] if w(i) else r.choice(["1", "p", "gi + p", "f1(p)"]) for i in range(n)))
    elif kind == 4:
        t = "int k%d(int p) { int l[%d] = {%s}; return l[0]; }" % (k, n, ", ".join("u_" + nm[i] if w(i) else r.choice(["1", "p", "{2}", "f1(p)"]) for i in range(n)))
    elif kind == 5:
        t = "int k%d(int p) { int %s; return p; }" % (k, ", ".join("%s = %s" % (nm[i], "u_" + nm[i] if w(i) else r.choice(["1", "p", "gi"])) for i in range(n)))
    elif kind == 6:
        t = "int %s;" % ", ".join("%s[%s]" % (nm[i], "u_" + nm[i] if w(i) else "3") for i in range(n))
    elif kind == 7:
        t = "\n".join("int %s%s;" % (nm[i], "[u_%s]" % nm[i] if w(i) else "") for i in range(n))
    elif kind == 8:
        t = "int k%d(int p) { switch (p) { %s } return 0; }" % (k, " ".join("case %d: %s; %s" % (i, "u_" + nm[i] if w(i) else "gi++", r.choice(["", "break;"])) for i in range(n)))
    elif kind == 9:
        t = "int k%d(int p) { switch (p) { %s } return 0; }" % (k, " ".join("case %s: gi = %d; break;" % ("u_" + nm[i] if w(i) else str(i), i) for i in range(n)))
    elif kind == 10:
        t = "int k%d(int p) { %s return 0; }" % (k, " ".join(r.choice(["%s;", "{ %s; }", "if (p) %s;", "while (p) { %s; }", "if (p) gi = 1; else %s;", "for (;;) %s;", "{ int loc_; loc_ = 1; %s; }", "if (p) { } else { { %s; } }"]) % ("u_" + nm[i] if w(i) else "gi++") for i in range(n)))
    elif kind in (11, 12):
        # declarators which share their specifiers
        ds = r.choice([("struct I", ["%s"], ["*%s", "**%s", "*%s[3]"]), ("int", ["%s(void)", "*%s(int)", "(%s)(char)"], ["%s", "*%s", "%s[2]", "(*%s)(void)"])])
        t = r.choice(["struct L%d { int z_; @; char y_; };", "int l%d(int p) { struct { @; } v_; return p; }", "struct L%d { struct { @; } in_; int z_; };", "typedef struct { @; } L%d;"]) % k
        t = t.replace("@", ds[0] + " " + ", ".join(r.choice(ds[1] if w(i) else ds[2]) % nm[i] for i in range(n)))
    else:
        t = "\n".join("%s %s(int p) { %s }" % (r.choice(["int", "long", "char"]), nm[i], "return u_%s;" % nm[i] if w(i) else "return p;") for i in range(n))
    return I.ENV + t + "\n", [("u_" + nm[i] if "u_" + nm[i] in t else nm[i]) for i in wrong], t


def mixed(r, k, kind):
    n = r.choice([2, 3, 4, 6, 10, 20])
    out, bad, seen = [], [], []
    again = set()
    for i in range(n):
        x = r.random()
        nm = "%s%d_%d" % (r.choice("abq"), k, i)
        if kind in (0, 1, 2) and x < 0.35 and [s for s in seen if s not in again]:
            nm = r.choice([s for s in seen if s not in again])   # again, once
            again.add(nm)
            out.append({0: r.choice(["int %s;", "char *%s;"]), 1: r.choice(["int %s", "long *%s"]), 2: "%s"}[kind] % nm)
            bad.append(nm)
        elif x < 0.6:
            seen.append(nm)
            out.append({0: "int %s;", 1: r.choice(["int %s", "struct I *%s"]), 2: "%s"}.get(kind, r.choice(["1", "p", "gi", "f1(p)"])) % (nm if kind < 3 else ()))
        elif kind == 0:
            out.append(r.choice(["struct I %s;", "void %s;"]) % nm)
            bad.append(nm)
        elif kind == 1:
            out.append("struct I %s" % nm)
            bad.append(nm)
        elif kind == 2:
            out.append("%s = u_%s" % (nm, nm))
            bad.append("u_" + nm)
        else:
            out.append("u_" + nm)
            bad.append("u_" + nm)
    if kind == 0:
        t = r.choice(["struct L%d { @ };", "int l%d(int p) { struct { @ } v_; return p; }", "struct L%d { struct { @ } in_; int z_; };", "typedef struct { @ } L%d;"]) % k
        t = t.replace("@", " ".join(out))
    elif kind == 1:
        t = r.choice(["int l%d(@);", "int l%d(@) { return 0; }", "void (*l%d)(@);", "int l%d(int z_, int (*y_)(@));"]) % k
        t = t.replace("@", ", ".join(out))
    elif kind == 2:
        t = r.choice(["enum L%d { @ };", "int l%d(int p) { enum { @ }; return p; }"]) % k
        t = t.replace("@", ", ".join(out))
    else:
        m = r.choice([x for x in range(0, 25) if x != n])
        if kind == 4:
            m = n
        d = "int l%d(%s);\n" % (k, ", ".join("int a%d_" % i for i in range(m)) or "void")
        t = d + r.choice(["int k%d(int p) { return l%d(@); }", "void k%d(int p) { l%d(@); }", "int k%d(int p) { return p + l%d(@) * 2; }"]) % (k, k)
        t = t.replace("@", ", ".join(out))
        if m != n:
            bad.append(str(n))
    if not bad:
        bad = ["u_last%d" % k]
        t += "\nint z%d_(int p) { return u_last%d; }" % (k, k)
    return I.ENV + t + "\n", bad, t


# ---- what a refused part leaves behind
BROKEN = ["{ int LL = 1; # }", "{ int LL; { # } LL = 1; }", "if (gi) { int LL; # }", "while (gi) { int LL; # }", "for (int LL = 0; LL < 2; LL++) { # }", "for (;;) { int LL; { { # } } }", "switch (gi) { case 1: { int LL; # } }", "switch (gi) { default: { # } }", "{ typedef int LL; LL q_; # }",
          "{ struct LL { int a; }; # }", "{ enum LL { LM }; # }", "for (int LL = 0; zz; LL++) { int LM; }", "for (int LL = zz; gi; LL++) ;", "for (int LL = 0; LL < 1; zz) { }", "while (zz) { int LL; break; }", "switch (zz) { case 1: { int LL; } }", "{ int LL = zz; { int LM = 1; } }", "if (zz) { int LL; }", "{ int LL[2] = {zz, 1}; }",
          "{ struct LL { int a; int a; }; }", "{ enum LL { LM = zz }; }", "while (gi) { switch (gi) { case 1: while (gl) { int LL; # } } }"]
# afterwards: (text, number of errors in it); the names of the broken part are unknown again, and nothing of it is in the way
AFTER = [("break;", 1), ("continue;", 1), ("case 1: ;", 1), ("default: ;", 1), ("LL = 1;", 1), ("gi = LM;", 1), ("sizeof(struct LL);", 1), ("int LL = 3; LL++;", 0), ("enum { LM, LN }; gi = LM;", 0), ("struct LL { char c; }; struct LL v_; v_.c = 1;", 0), ("while (gi) { break; continue; }", 0), ("switch (gi) { case 1: break; default: ; }", 0),
         ("switch (gi) { case 1: ; case 1: ; }", 1), ("switch (gi) { default: continue; }", 1), ("while (gi) { case 1: ; }", 1), ("return 1;", 0), ("return gp;", 1), ("for (int LL = 0; LL < 3; LL++) break;", 0), ("gi = LL + 1;", 1), ("typedef char LL; LL v2_ = 'a';", 0), ("prm = 2; prs = gcp;", 0), ("int prm;", 1)]


def leftovers(r, k):
    b = r.choice(BROKEN).replace("#", r.choice(["zz;", "gi = zz;", "*gi;", "gs.zz;", "int zz1 = zz;", "f1();", "gi = gp;", "5 = gi;"]))
    afters, names = [], set()
    for _ in range(r.randrange(1, 4)):
        a = r.choice(AFTER)
        if a[0] in [x[0] for x in afters] or "return" in a[0]:
            continue
        # declarations of the same name again would be errors of their own
        d = {n for n in ("LL", "LM", "v_", "v2_") if re.search(r"(int|enum \{|struct|typedef char|LL) %s\b" % n, a[0])}
        u = names_in(a[0]) & {"LL", "LM"}
        if (d | u) & names:
            continue
        names |= d | u
        afters.append(a)
    same = r.random() < 0.6
    body = " ".join("{ %s }" % a[0] if r.random() < 0.3 and a[0][:4] not in ("case", "defa") and a[0] != "int prm;" else a[0] for a in afters)
    want = 1 + sum(a[1] for a in afters)
    if same:
        t = "int m_(int prm, char *prs) { %s %s return 0; }" % (b, body)
    else:
        t = "%s m_(int prm, char *prs) { %s }\nint n_(int prm, char *prs) { %s return 1; }\nvoid o_(int prm) { return; }" % (r.choice(["int", "void", "char *"]), b, body)
    return I.ENV + t + "\n", want, t


SYNTAX_OK_AROUND = 2


def check():
    ck = Check("C17", "one program with several errors of meaning whose diagnostics, as a multiset, are those of its errors alone; one error in one place giving one diagnostic; one program with randomly spelled offending names each mentioned once; "
               "one syntax error whose diagnostic is the same amid correct code",
               assumptions=["data/semantic.txt lists entries holding one error each", "the parts that depend on a refused declaration are not independent of it"])
    eng = Engine()
    cc = Compiler(eng.umlcc)
    dg = Diags(ck, cc)
    es = semgen.load()
    locals_of(es)
    r = rng("c17")
    its = [item(r, e, True) for e in es]
    for _ in range(tier(3, 12)):
        its += [item(r, e, False) for e in es if e[0] != "f" and e[2] not in NOT_EXPR]
    dg.singles(its)
    pool = [it for it in its if it.solo is not None]
    fpool = [it for it in pool if it.kind == "f"]
    bpool = [it for it in pool if it.kind != "f"]
    mis = [it for it in bpool if re.match(r"(break|continue|case|default)\b", it.text)]

    def combo(i):
        r = rng("c17c", i)
        n = r.choice([2, 2, 3, 4, 6, 10, 25])
        its = []
        seen = set()
        for _ in range(n):
            it = r.choice(mis) if mis and r.random() < 0.1 else r.choice(fpool) if fpool and r.random() < 0.25 else r.choice(bpool)
            own = names_in(it.text) & LOCALS - PLACES
            if own & seen:
                continue
            seen |= own
            its.append(it)
        text = combine(r, its, i)
        dg.combined(I.ENV + text, [it.solo for it in its], "several errors")
    pmap(combo, range(tier(1500, 25000)))

    def amid(i):
        """the same error amid correct code"""
        r = rng("c17a", i)
        it = r.choice(pool)
        a = correct(r, 2 * i) if r.random() < 0.7 else ""
        b = correct(r, 2 * i + 1) if r.random() < 0.7 or not a else ""
        clash = (names_in(a + b) & LOCALS & names_in(it.text)) if it.kind == "f" else ()
        if clash or (names_in(a + b) & (GLOBAL - COMMON)) - {"int", "char"}:
            ck.count("correct code with clashing names left out")
            return
        dg.combined(PRELUDE + I.ENV + a + "\n" + it.alone() + "\n" + b + "\n", [it.solo], "an error amid correct code")
    pmap(amid, range(tier(500, 6000)))

    def names(i):
        r = rng("c17n", i)
        text, bad = named(r, i)
        o = cc(text)
        if not dg.refused(o, text, "named errors"):
            return
        ls = lines(o)
        ck.observe(("named", text))
        ck.count("programs with named errors")
        for b in bad:
            n = sum(1 for l in ls if re.search(r"['\"`]%s['\"`]" % b, l))
            ck.count("names_looked_for")
            if n != 1:
                ck.violation("the offending name %s is mentioned in %d diagnostics: %s\n%s" % (b, n, " | ".join(ls)[:500], text[len(I.ENV):]), {"program.c": text}, key=("name", n))
        if len(ls) != len(bad):
            ck.violation("%d errors, %d diagnostics: %s\n%s" % (len(bad), len(ls), " | ".join(ls)[:500], text[len(I.ENV):]), {"program.c": text}, key=("names", len(bad), len(ls)))
    pmap(names, range(tier(700, 10000)))

    def lists(i):
        r = rng("c17l", i)
        text, bad, t = listed(r, i)
        o = cc(text)
        if not dg.refused(o, text, "errors in a list"):
            return
        ls = lines(o)
        ck.observe(("list", text))
        ck.count("lists with errors")
        ok = len(ls) == len(bad) and all(any(re.search(r"(?<!\w)%s(?!\w)" % b, l) for l in ls) for b in bad)
        if not ok:
            ck.violation("the errors of a list are at %s, the diagnostics are: %s\n%s" % (", ".join(bad), " | ".join(ls)[:600], t[:800]), {"program.c": text}, key=("list", len(bad) > len(ls)))
    pmap(lists, range(tier(700, 10000)))

    def rest(i):
        r = rng("c17r", i)
        text, want, t = leftovers(r, i)
        o = cc(text)
        if not dg.refused(o, text, "what a refused part leaves behind"):
            return
        ls = lines(o)
        ck.observe(("left", text))
        ck.count("programs continuing after a refused part")
        if len(ls) != want:
            ck.violation("after a refused part: %d errors, %d diagnostics: %s\n%s" % (want, len(ls), " | ".join(ls), t), {"program.c": text}, key=("left", len(ls) - want))
    pmap(rest, range(tier(900, 12000)))

    # the operator and the counts a diagnostic speaks of are those of the source
    def spoken(t):
        text = I.ENV + I.function(t[0], "i") + "\n" + ""
        o = cc(text)
        if not dg.refused(o, text, "an operator or a count"):
            return
        ls = lines(o)
        ck.observe(("spoken", text))
        ck.count("operators and counts looked for")
        if len(ls) != 1 or not re.search(t[1], ls[0]) or t[2] and re.search(t[2], ls[0]):
            ck.violation("the diagnostic of %s is: %s" % (t[0], " | ".join(ls)), {"program.c": text}, key=("spoken", t[0]))
    ops = ["*", "/", "%", "+", "-", "<<", ">>", "<", ">", "<=", ">=", "==", "!=", "&", "^", "|", "&&", "||"]
    tests = [("gi %s gs;" % op, r"(?<=\s)%s(?=\s)" % re.escape(op), None) for op in ops]
    tests += [("%sgs;" % op, r"(?<=\s)%s(?=\s)" % re.escape(op), None) for op in "-+!~*"]
    tests += [("++gs;", r"\+\+|increment", r"--|decrement"), ("gs++;", r"\+\+|increment", r"--|decrement"), ("--gs;", r"--|decrement", r"\+\+|increment"), ("gs--;", r"--|decrement", r"\+\+|increment"), ("++5;", r"\+\+|increment", r"--|decrement"), ("5--;", r"--|decrement", r"\+\+|increment")]
    tests += [("if (gs) ;", r"\bif\b", r"while|for|switch"), ("while (gs) ;", r"\bwhile\b", r"\bif\b|for|switch"), ("for (; gs; ) ;", r"\bfor\b", r"\bif\b|while|switch"), ("switch (gp) { }", r"\bswitch\b", r"\bif\b|while|for"), ("break;", "break", "continue|case|default"), ("continue;", "continue", "break|case|default"),
              ("case 1: ;", "case", "break|continue|default"), ("default: ;", "default", "break|continue|case"), ("switch (gi) { default: ; default: ; }", "default", "break|continue"), ("switch (gi) { case 1: ; case 1: ; }", "case", "break|continue|default"), ("sizeof(f0);", "sizeof", None)]
    for np in range(0, 9):
        for na in range(0, 9):
            if np != na:
                d = "int cnt_(%s); " % (", ".join("int a%d" % i for i in range(np)) or "void")
                tests.append((d + "cnt_(%s);" % ", ".join(["gi"] * na), r"\b%d\b.*\b%d\b|^\D*$" % (np, na), None))
    pmap(spoken, tests)

    # syntax: the first error, alone and amid correct code
    sem = set(es)
    syn = [e for e in semgen.entries() if e not in sem]

    def syntax(i):
        r = rng("c17s", i)
        e = syn[i % len(syn)]
        base = I.ENV + semgen.alone(*e) + "\n"
        o = cc(base)
        if o.timeout or o.rc != 1:
            return
        l = lines(o)
        if b"in lexer" not in o.err and b"in parser" not in o.err:
            return
        pre = "".join(r.choice(DECLS_OK).replace("%d", str(90000 + 10 * i + j)) + "\n" for j in range(r.randrange(1, 4)))
        post = "".join(r.choice(DECLS_OK).replace("%d", str(90000 + 10 * i + 5 + j)) + "\n" for j in range(r.randrange(1, 4)))
        for what, text in (("before", I.ENV + pre + semgen.alone(*e) + "\n"),) + ((("after", base + post),) if e[0] != "f" and semgen.alone(*e).rstrip().endswith("}") and semgen.alone(*e).count("{") == semgen.alone(*e).count("}") and semgen.alone(*e).count("(") == semgen.alone(*e).count(")") and semgen.alone(*e).count('"') % 2 == 0 else ()):
            o2 = cc(text)
            if not dg.refused(o2, text, "a syntax error"):
                continue
            ck.observe(("syntax", what, text))
            ck.count("syntax errors amid correct code")
            if lines(o2) != l or len(l) != 1:
                ck.violation("correct code %s a syntax error changes its diagnostics from %s to %s\n%s" % (what, " | ".join(l), " | ".join(lines(o2)), text[len(I.ENV):]), {"program.c": text}, key=("syntax", what))
    pmap(syntax, range(tier(len(syn), 6 * len(syn))))
    ck.finish(min_evaluations=3000)


COMMON = {"int", "char", "long", "struct", "void", "unsigned", "enum", "typedef", "x", "y", "a", "b", "n", "z", "p", "arr", "S", "T", "E"}

if __name__ == "__main__":
    main(check)
