"""C12: source text is tokenised as C prescribes."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "gen"))
from diff import *
from outcome import *
from lexgen import *
import inputs, illformed
from lang import literal, bounds

N = [0]


def nid():
    N[0] += 1
    return N[0]


# ---- respacing: the outcome does not depend on white space
def respacing(ck, cc, n):
    def one(i):
        r = rng("c12r", i)
        if i % 5 == 4:
            items = list(illformed.programs(rng("c12i", i // 200), 1))
            text = items[i % len(items)][1]
        else:
            text = inputs.valid(r, i) if i % 3 else inputs.small(r, i)
        try:
            ts = tokens(text)
        except Bad:
            ck.count("not_tokenisable")
            return
        if not ts:
            return
        want = cc(" ".join(ts))
        for st in STYLES:
            v = respaced(r, ts, st)
            got = cc(v)
            if want.timeout or got.timeout:
                ck.inconclusive += 1
                continue
            ck.count("respaced:" + st)
            if want.rc == 0:
                ck.count("respaced_accepted")
            ck.observe(v)
            if not got.same(want):
                ck.violation("the same tokens, spaced otherwise (%s), have another outcome: %s; one blank between tokens: %s; %s" %
                             (st, got.text(), want.text(), first_difference(got.asm, want.asm)),
                             {"spaced.c": " ".join(ts).encode("latin-1"), "respaced.c": v.encode("latin-1")}, key=("respaced", st, got.text()))
    # the generators of the fragments share a counter: texts are made one after another
    for i in range(0, n, 64):
        pmap(one, range(i, min(n, i + 64)))


# ---- runs of tokens without white space: the outcome is that of the tokens C finds
ENVP = "struct S { int a; struct S *n; }; int x(int i); int a; int b; long l; int *p; int **pp; struct S s; struct S *q; char c; int v[4];\n"
FRAMES = ["a@b", "@a", "a@", "a@p", "p@a", "*p@*pp", "(a)@(b)", "q@a", "s@a", "a@1", "1@a", "v@", "x@", "a=b@p", "'c'@a", "a@'c'", "a ? b@l", "a@b:l"]
OTHER = ["a", "int", "sizeof", "if", "else", "return", "0", "1", "017", "0x1f", "1u", "2L", "3ull", "'a'", '"s"', "_", "x1", "e", "L", "u", "x", "0x", "08", "1e", "0xe", "1.", ".5", "@", "$", "#", "`", "\\", "\x80", "\xff", "\x01", "/*", "//", "'", '"', "''", "'\\q'",
         "short", "const", "do", "goto"]


def operand(r, d):
    """tokens of an int expression, rich in prefix and postfix operators"""
    x = r.random()
    if d <= 0 or x < 0.3:
        return [r.choice(["a", "b", "c", "l", "1", "0x1f", "017", "2u", "3L", "'c'"])]
    if x < 0.55:
        return [r.choice(["-", "+", "~", "!", "-", "+"])] + operand(r, d - 1)
    if x < 0.65:
        return [r.choice(["++", "--"])] + r.choice([["a"], ["*", "p"], ["v", "[", "1", "]"], ["q", "->", "a"], ["s", ".", "a"]])
    if x < 0.75:
        return r.choice([["a"], ["(", "*", "p", ")"], ["v", "[", "1", "]"], ["q", "->", "n", "->", "a"], ["s", ".", "a"]]) + [r.choice(["++", "--"])]
    if x < 0.85:
        return r.choice([["*", "p"], ["*", "&", "a"], ["*", "*", "pp"], ["**"[:1], "&", "*", "p"], ["*", "p", "++"], ["*", "--", "p"], ["sizeof", "a"], ["sizeof", "(", "int", ")"], ["sizeof", "-", "a"], ["(", "char", ")", "-", "a"], ["x", "(", "-", "1", ")"]])
    return ["("] + sentence(r, d - 1) + [")"]


def sentence(r, d=3):
    out = operand(r, d)
    for _ in range(r.choice([0, 1, 1, 2, 3])):
        out += [r.choice(["+", "-", "*", "/", "%", "<<", ">>", "<", ">", "<=", ">=", "==", "!=", "&", "|", "^", "&&", "||"])] + operand(r, d - 1)
    x = r.random()
    if x < 0.3:
        out = r.choice([["a"], ["*", "p"], ["q", "->", "a"]]) + [r.choice(["=", "+=", "-=", "*=", "/=", "%=", "<<=", ">>=", "&=", "|=", "^="])] + out
        if d < 3:
            out = ["("] + out + [")"]
    elif x < 0.4:
        out = ["b", "?"] + out + [":"] + operand(r, 1)
        if d < 3:
            out = ["("] + out + [")"]
    return out


def runs(ck, cc, n):
    jobs = []
    r = rng("c12p")
    for p1 in PUNCT:
        for p2 in PUNCT:
            fs = FRAMES if ck_thorough() else r.sample(FRAMES, 5)
            for f in fs:
                jobs.append(f.replace("@", p1 + p2))
    for p1 in PUNCT:
        for f in FRAMES:
            jobs.append(f.replace("@", p1))
    for _ in range(n):
        k = r.choice([2, 3, 4, 5])
        t = "".join(r.choice(PUNCT if r.random() < 0.6 else OTHER + ["a", "b", "p", "*p", "1", "v[0]", "(", ")"]) for _ in range(k))
        jobs.append(r.choice(FRAMES).replace("@", t))
    for o1 in OTHER:
        for o2 in OTHER + PUNCT:
            jobs.append(r.choice(["a = %s;", "%s", "a = 1 + %s", "a %s b"]).replace("%s", o1 + o2))
            jobs.append(o2 + o1)
    jobs += [tight(sentence(r)) for _ in range(n // 2)]
    ck.count("token_runs", len(jobs))

    def one(t):
        text = ENVP + "int f(void) { %s; return a; }\n" % t
        got = cc(text)
        if got.timeout:
            ck.inconclusive += 1
            return
        try:
            ts = tokens(text)
        except Bad as e:
            ck.count("runs_with_an_invalid_token")
            if got.rc != 1 or got.asm is not None:
                ck.violation("a source with the invalid token %r has the outcome %s: %s" % (str(e), got.text(), t), {"run.c": text.encode("latin-1")}, key=("invalid token", str(e)[:2]))
            ck.observe(text)
            return
        want = cc(" ".join(ts))
        if want.timeout:
            return
        ck.observe(text)
        ck.count("runs_accepted" if got.rc == 0 else "runs_refused")
        if not got.same(want):
            ck.violation("the token run %r has the outcome %s; its tokens set apart (%s): %s" % (t, got.text(), " ".join(tokens(t)), want.text()),
                         {"run.c": text.encode("latin-1"), "apart.c": " ".join(ts).encode("latin-1")}, key=("run", got.rc, want.rc, t[:3]))
    pmap(one, jobs)


def ck_thorough():
    return TIER == "thorough"


# ---- behaviour of tight and odd spellings
def spelled_fragment(r):
    c = None
    for _ in range(60):
        c = r.choice(inputs.FRAGMENTS)(r)
        if not c.may_reject:
            break
    c.u = c.u.replace("idf(", "ev2(4, ")
    try:
        ts = tokens(c.u)
    except Bad:
        return c
    return Case(respaced(r, ts, r.choice(["tight", "tight", "mixed"])) + "\n", c.entry, c.h, host_entry=c.host_entry, stateful=c.stateful, may_reject=c.may_reject, tag="respaced fragments", ref=c.u)


SUF = ["", "u", "U", "l", "L", "ul", "uL", "Ul", "UL", "lu", "lU", "Lu", "LU", "ll", "LL", "ull", "uLL", "Ull", "ULL", "llu", "llU", "LLu", "LLU"]


def spell_int(r, v, base, suf):
    if base == 10:
        t = "%d" % v if v else "0"
    elif base == 8:
        t = "0" * r.choice([1, 1, 1, 2, 5]) + "%o" % v if v else "0" * r.choice([1, 2, 7])
    else:
        h = "%x" % v
        h = "".join(r.choice([ch, ch.upper()]) for ch in h)
        t = r.choice(["0x", "0X"]) + "0" * r.choice([0, 0, 0, 1, 3, 30]) + h
    return t + suf


def int_values(r):
    out = []
    for k in (0, 7, 8, 15, 16, 31, 32, 63):
        for d in (-1, 0, 1):
            out.append((1 << k) + d)
    out += [0, 1, 7, 8, 9, 10, 15, 16, 17, 99, 100, (1 << 64) - 1, (1 << 64) - 2, 0xdeadbeef, 0x123456789abcdef, 0o1234567012345670]
    out.append(r.getrandbits(r.randrange(1, 65)))
    out.append(int("".join(r.choice("0123456789abcdef") for _ in range(r.randrange(1, 17))), 16))
    return out


def integers(r, base, suf):
    """one function logging value, size and signedness of constants of one base and suffix"""
    k = nid()
    out = []
    for v in int_values(r):
        if v >= 1 << 63 and base == 10 and "u" not in suf.lower():
            continue        # no standard type holds it
        t = spell_int(r, v, base, suf)
        out.append("log_v(%s); log_i(sizeof(%s)); log_i(%s * 0 - 1 > 0);" % (t, t, t))
    return Case("void n_%d(void) { %s }\n" % (k, " ".join(out)), "n_%d" % k, tag="integer constants")


def integer_places(r):
    """constants where a constant is required"""
    k = nid()
    def small():
        return spell_int(r, r.choice([1, 2, 3, 7, 8, 9, 10, 11, 15, 16, 17, 31, 64, 65]), r.choice([8, 10, 16]), "")
    def any_(lim):
        v = r.choice([x for x in int_values(r) if x < lim])
        return spell_int(r, v, r.choice([8, 10, 16]), "")
    cs = {}
    for _ in range(6):
        v = r.choice([x for x in int_values(r) if x < 1 << 31])
        cs[v] = spell_int(r, v, r.choice([8, 10, 16]), "")
    u = "enum { A_%d = %s, B_%d, C_%d = %s }; char g_%d[%s]; unsigned long h_%d[3] = {%s, %s, %s}; long m_%d = -%s;\n" % (
        k, any_(1 << 30), k, k, any_(1 << 30), k, small(), k, any_(1 << 63), any_(1 << 63), any_(1 << 63), k, any_(1 << 63))
    body = "int i; char loc[%s]; log_i(sizeof(loc)); log_i(A_%d); log_i(B_%d); log_i(C_%d); log_i(sizeof(g_%d)); for (i = 0; i < 3; i++) log_m(h_%d[i]); log_l(m_%d); " % (small(), k, k, k, k, k, k)
    body += "for (i = 0; i < %d; i++) switch (i == 0 ? %s) { %s default: log_i(-1); } " % (
        len(cs) + 1, nest(list(cs.values())),
        " ".join("case %s: log_i(%d); break;" % (spell_int(r, v, r.choice([8, 10, 16]), ""), j) for j, v in enumerate(cs)))
    return Case(u + "void p_%d(void) { %s }\n" % (k, body), "p_%d" % k, tag="integer constants in constant places")


def nest(vs):
    """after `i == 0 ?`: v0 : i == 1 ? v1 : ... : 12345678"""
    out = vs[0]
    for j, v in enumerate(vs[1:]):
        out += " : i == %d ? %s" % (j + 1, v)
    return out + " : 12345678"


def characters(r, part):
    """every byte value in every spelling as a character constant"""
    k = nid()
    u, ref = [], []
    for v in range(part * 32, part * 32 + 32):
        sp = ["\\%o" % v, "\\%03o" % v, "\\x%x" % v, "\\x%02X" % v, "\\x000%x" % v]
        if v not in (0, 10, 39, 92):
            sp.append(chr(v))
        for c, x in SIMPLE.items():
            if x == v:
                sp.append("\\" + c)
        for s in sp:
            u.append("log_i('%s');" % s)
            ref.append("log_i('\\%03o');" % v)
        s = r.choice(sp)
        u.append("log_i(sizeof('%s')); log_i('%s' * 2 + '%s'); ch = '%s'; log_c(ch); log_i(ch == '%s');" % (s, s, r.choice(sp), s, r.choice(sp)))
        ref.append("log_i(sizeof('a')); log_i('\\%03o' * 2 + '\\%03o'); ch = '\\%03o'; log_c(ch); log_i(1);" % (v, v, v))
    f = "void k_%d(void) { char ch; %s }\n"
    return Case(f % (k, " ".join(u)), "k_%d" % k, tag="character constants", ref=f % (k, " ".join(ref)))


def string(r, bs, tag):
    """the bytes in every place a string may stand in"""
    k = nid()
    n = len(bs)
    sps = [spell_string(r, bs) for _ in range(5)]
    more = r.choice([0, 0, 1, 5])
    idx = [r.randrange(n + 1) for _ in range(4)]

    def text(s):
        u = "char g_%d[%d] = %s; char e_%d[%d] = %s;\n" % (k, n + 1 + more, s[0], k, max(n, 1), s[1])
        body = "char l[%d] = %s; char *p; p = %s; log_i(sizeof(%s)); log_b(l, %d); log_b(p, %d); log_b(%s, %d); log_b(g_%d, %d); log_b(e_%d, %d);" % (
            n + 1 + more, s[2], s[3], s[4], n + 1 + more, n + 1, s[0], n + 1, k, n + 1 + more, k, max(n, 1))
        body += " " + " ".join("log_c(%s[%d]);" % (s[j], i) for j, i in enumerate(idx))
        return u + "void s_%d(void) { %s }\n" % (k, body)
    ref = plain_string(bs)
    if n == 0:
        ref = '""'
    return Case(text(sps), "s_%d" % k, tag=tag, ref=text([ref] * 5))


SOURCE = [b"/*", b"*/", b"//", b"/", b"*", b" ", b"  ", b"\t", b"\n", b"\\\n", b"\\", b"'", b"\"", b"\"\"", b"'\"'", b"\\\"", b"#", b"##", b"#define x y\n", b"#include", b"<:", b"%:", b"%>", b";", b"}", b"{",
          b"(", b")", b",", b"int", b"return", b"while", b"0x", b"08", b"a", b"u", b"l", b"x", b"++", b"--", b"->", b"...", b".", b"<<=", b"?", b":", b"@", b"`", b"$", b"%s", b"%%", b"\\n", b"\\0", b"\0", b"L", b"\xff", b"\x80",
          b".string", b".ascii", b".L0", b"/* a */", b"// b\n", b"%rax", b"$1"]


def strings(r, n):
    out = []
    # every byte followed by every kind of character
    for v in range(256):
        bs = []
        for f in r.sample([48, 49, 55, 56, 57, 97, 65, 102, 70, 103, 92, 34, 63, 32, 0, 255], 8):
            bs += [v, f]
        out.append(string(r, bs, "strings: byte and follower"))
    for i in range(n):
        ln = r.choice([0, 1, 2, 3, 4, 5, 7, 8, 15, 16, 31, 63, 64, 100, 255, 256, 300])
        pool = r.choice([list(range(256)), list(range(1, 128)), list(range(128, 256)), list(b"0123456789abcdefABCDEF\x00\x01\x07\x08"), list(b"\\\"'?%\n\t\a\0x0n"), list(b"%sd\\ %%n#@"), [0, 0, 0, 65]])
        out.append(string(r, [r.choice(pool) for _ in range(ln)], "strings: random"))
    # what would be something else outside a string
    for i in range(n):
        bs = b"".join(r.choice(SOURCE) for _ in range(r.choice([1, 2, 3, 4, 6, 10, 30])))
        out.append(string(r, list(bs), "strings: source text"))
    return out


def ident(r, ln=None):
    ln = ln or r.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 200])
    first = "_abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
    return r.choice(first) + "".join(r.choice(first + "0123456789") for _ in range(ln - 1))


def near(r, w):
    """a name close to w"""
    x = r.randrange(7)
    if x == 0:
        return w + r.choice("_0aZ9e")
    if x == 1:
        return r.choice("_aZ") + w
    if x == 2 and len(w) > 1:
        return w[:-1]
    if x == 3:
        return w.upper() if r.random() < 0.5 else w.capitalize()
    if x == 4:
        i = r.randrange(len(w))
        return w[:i] + w[i].swapcase() + w[i + 1:]
    if x == 5:
        return w + r.choice(KEYWORDS)
    i = r.randrange(len(w) + 1)
    return w[:i] + r.choice("abcxyz_") + w[i:]


TAKEN = set(KEYWORDS) | set(RESERVED) | set("log_c log_i log_u log_l log_m log_q log_v ev ev2 evc evl log_s log_b dirty asm typeof linux unix main".split())


def identifiers(r):
    """names close to keywords, to each other, long, of every letter: each keeps its own value; k makes file-scope names unique to the case"""
    k = nid()
    names = []
    for _ in range(r.randrange(8, 26)):
        x = r.random()
        n = near(r, r.choice(KEYWORDS)) if x < 0.4 else near(r, r.choice(names)) if x < 0.6 and names else ident(r)
        if x > 0.9 and names:
            b = ident(r, 60)
            n = b + r.choice("ab_1")
        if n and n[0].isalpha() or n.startswith("_"):
            if n not in names and n not in TAKEN and not n.startswith("__") and not (n.startswith("_") and n[1:2].isupper()):
                names.append(n)
    if len(names) < 4:
        return identifiers(r)
    body = []
    style = r.randrange(5)
    pre = ""
    if style == 0:
        body = ["int %s = %d;" % (n, i * 3 + 1) for i, n in enumerate(names)]
        body += ["log_i(%s);" % n for n in r.sample(names, len(names))] + ["%s = %s + 1; log_i(%s);" % (n, m, n) for n, m in zip(names, names[1:])]
    elif style == 1:
        pre = "struct st_%d { %s };\n" % (k, " ".join("int %s;" % n for n in names))
        body = ["struct st_%d s; log_i(sizeof(s));" % k] + ["s.%s = %d;" % (n, i * 5 + 2) for i, n in enumerate(names)] + ["log_i(s.%s);" % n for n in r.sample(names, len(names))]
    elif style == 2:
        body = ["enum %s { %s };" % (r.choice(["", names[0]]), ", ".join("%s = %d" % (n, i * 7 + 3) for i, n in enumerate(names)))] + ["log_i(%s);" % n for n in r.sample(names, len(names))]
    elif style == 3:
        # file scope: a case's own name is part of each
        fs = [n + "_%d" % k for n in names]
        half = len(fs) // 2
        pre = "".join("int %s(int x) { return x * 100 + %d; }\n" % (n, i) for i, n in enumerate(fs[:half])) + "".join("long %s = %d;\n" % (n, i * 11 + 5) for i, n in enumerate(fs[half:]))
        body = ["log_i(%s(%d));" % (n, i) for i, n in enumerate(fs[:half])] + ["log_l(%s);" % n for n in r.sample(fs[half:], len(fs) - half)]
    else:
        pre = "".join("struct %s_%d { char c[%d]; };\n" % (n, k, i + 1) for i, n in enumerate(names))
        body = ["log_i(sizeof(struct %s_%d));" % (n, k) for n in r.sample(names, len(names))]
        body += ["typedef char %s[%d];" % (n, i + 3) for i, n in enumerate(names)] + ["log_i(sizeof(%s));" % n for n in names]
    return Case(pre + "void case_entry_i_%d(void) { %s }\n" % (k, " ".join(body)), "case_entry_i_%d" % k, tag="identifiers")


def check():
    ck = Check("C12", "respaced programs and runs of unspaced tokens with the same outcome as their tokens set apart (a reference tokeniser finds them); constants, characters, "
               "strings and names spelled in every way whose values, sizes and bytes the compiled program logs as two reference builds of a plain spelling do",
               assumptions=["white space is blank, tab, newline, vertical tab and form feed"])
    eng = Engine()
    cc = Compiler(eng.umlcc)
    respacing(ck, cc, tier(350, 4000))
    runs(ck, cc, tier(4000, 60000))
    r = rng("c12")
    cases = [integers(r, b, s) for b in (8, 10, 16) for s in SUF for _ in range(tier(1, 8))]
    cases += [integer_places(r) for _ in range(tier(60, 1500))]
    cases += [characters(r, p) for p in range(8) for _ in range(tier(1, 4))]
    for _ in range(tier(1, 6)):
        cases += strings(r, tier(150, 600))
    for ln in (1000, 5000) + tier((), (70000, 300000)):
        cases.append(string(r, [r.randrange(256) for _ in range(ln)], "strings: long"))
    cases += [identifiers(r) for _ in range(tier(200, 3000))]
    cases += [spelled_fragment(r) for _ in range(tier(300, 5000))]
    r.shuffle(cases)
    eng.evaluate(ck, cases, size=30)
    ck.finish(min_evaluations=5000)


if __name__ == "__main__":
    main(check)
