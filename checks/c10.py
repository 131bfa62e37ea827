"""C10: ill-formed programs are refused with a diagnostic."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "gen"))
from common import *
from illformed import *
from proggen import program
from classics import classic
import ctok, misplaced, positions, typepairs

def hard(line):
    return ": error: " in line and ("[-Wpedantic]" not in line or "empty" in line or "type defaults" in line or "ordered comparisons" in line)


class Judge:
    def __init__(self, ck, umlcc):
        self.ck, self.umlcc = ck, umlcc
        self.n = 0
        self.lock = threading.Lock()
        self.dir = subdir("c10")

    def path(self):
        with self.lock:
            self.n += 1
            return os.path.join(self.dir, "p%d.c" % self.n)

    def umlcc_says(self, text):
        """-> (verdict, detail): refused | accepted | bad"""
        p = self.path()
        with open(p, "w", encoding="latin-1") as f:
            f.write(text)
        asm = p[:-2] + ".s"
        r = run([self.umlcc, p], timeout=60)
        out = os.path.exists(asm)
        for q in (p, asm):
            if os.path.exists(q):
                os.unlink(q)
        err = r.err.decode("latin-1")
        if r.timeout or r.rc in (-9, -24):
            return "timeout", "no answer within 60 s"
        if r.rc == 0:
            return "accepted", ""
        if r.rc != 1:
            return "bad", "ended with status %d" % r.rc
        if out:
            return "bad", "refused, but assembly was written"
        if not err.strip() or "error" not in err:
            return "bad", "refused without a diagnostic"
        return "refused", err

    def gcc_refuses(self, text):
        p = self.path()
        with open(p, "w", encoding="latin-1") as f:
            f.write(text)
        r = run(["gcc", "-std=c99", "-pedantic-errors", "-fsyntax-only", p], timeout=60)
        os.unlink(p)
        err = r.err.decode("utf-8", "replace")
        # mere extensions of the reference (conversions between function and object pointers, ...) do not count
        return any(hard(l) for l in err.split("\n")), err

    def judge(self, text, label, known=None, sure=False):
        """one program expected to be ill-formed"""
        ck = self.ck
        v, detail = self.umlcc_says(text)
        if v == "refused":
            ck.observe(text)
            ck.count("refused:" + label)
            return v
        if v == "timeout":
            ck.inconclusive += 1
            return v
        # only a program the reference refuses as well is a witness
        refuses, why = self.gcc_refuses(text)
        if not refuses:
            ck.count("not_ill_formed_after_all")
            if v == "bad":
                ck.count("left_to_other_properties")
            return v
        ck.observe(text)
        if known:
            k = known(text, why)
            if k:
                ck.known_finding(*k)
                return v
        first = [l for l in why.split("\n") if "error" in l][:1]
        ck.violation("%s: %s (%s)\n%s\n%s" % (label, "ill-formed program accepted" if v == "accepted" else detail,
                                              (first or [""])[0][-200:], "", text[-700:]),
                     {"prog.c": text.encode("latin-1"), "reference.txt": why}, key=(label, text[-400:]))
        return v


# ---- operand types: every operator on every combination, judged one by one by the reference
OPERANDS = ["gi", "gl", "gc", "gu", "ge", "gp", "gcp", "glp", "gpp", "gv", "gs", "gt", "gps", "gpt", "gpi", "ga", "gm", "gsa", "gpa", "f0", "f1", "gf", "fv()", "f0()", "fr()",
            "5", "'a'", '"str"', "E1", "gs.a", "gps->n", "gs.arr", "&gi", "&gs", "*gpp", "gm[1]", "&f0", "&ga", "(long)1", "(char *)0", "(void *)0"]
BIN = ["+", "-", "*", "/", "%", "<<", ">>", "&", "|", "^", "&&", "||", "<", ">", "<=", ">=", "==", "!=",
       "=", "+=", "-=", "*=", "/=", "%=", "<<=", ">>=", "&=", "|=", "^="]
UN = ["+@", "-@", "~@", "!@", "*@", "&@", "++@", "--@", "@++", "@--", "@[0]", "@[gi]", "ga[@]", "gp[@]", "@(1)", "@()", "@.a", "@->a", "@->n->a", "sizeof(@)", "(int)@", "(long)@", "(char)@", "(int *)@",
      "(char *)@", "(struct S *)@", "(struct S)@", "(void)@", "f1(@)", "f2(1, @)", "f2(@, gcp)", "fp(@)", "gf(@)", "@ ? 1 : 2", "&*@", "*&@", "**@", "@[0][0]", "gps->n = @", "gs.a = @", "gs.arr[@]", "*gpp = @", "gpa = @", "gf = @"]
STM = ["if (@) ;", "while (@) break;", "for (; @; ) break;", "switch (@) { default: ; }", "return @;", "int *l_ = @;", "int l_ = @;", "char *l_ = @;", "struct S l_ = @;", "struct S *l_ = @;", "long l_ = @;", "char l_ = @;", "void *l_ = @;",
       "int l_[2] = {@};", "int (*l_)(int x) = @;", "int **l_ = @;", "int l_[2] = @;", "struct T l_ = {1, @};", "char *l_[2] = {@, @};", "int (*l_)[3] = @;", "struct S l_ = {1, 2, @, {1, @}};"]


def matrix(rnd, share):
    out = []
    for a in OPERANDS:
        for u in UN:
            if (a, u) == ("gpi", "*@"):
                continue    # undefined rather than ill-formed
            out.append(("operand of %s" % u, u.replace("@", a) + ";"))
        for s in STM:
            out.append(("%s" % s, s.replace("@", a)))
        for b in OPERANDS:
            for o in BIN:
                if rnd.random() < share:
                    out.append(("operands of %s" % o, "%s %s %s;" % (a, o, b)))
            if rnd.random() < share * 2:
                out.append(("operands of ?:", "gi ? %s : %s;" % (a, b)))
                out.append(("operands of ?:, used", "gi = gi ? %s : %s;" % (a, b)))
    return out


def reference_verdicts(items):
    """the set of indices the reference refuses (one function per line)"""
    head = ENV.count("\n")
    d = subdir("ref")
    bad = set()

    def one(job):
        k, chunk = job
        p = os.path.join(d, "m%d.c" % k)
        with open(p, "w") as f:
            f.write(ENV)
            for i, (_, t) in chunk:
                f.write("int m%d_(int prm) { %s return 0; }\n" % (i, t))
        r = run(["gcc", "-std=c99", "-pedantic-errors", "-fsyntax-only", "-fmax-errors=0", "-fno-diagnostics-show-caret", p], timeout=200)
        s = set()
        for l in r.err.decode("latin-1").split("\n"):
            m = re.match(r".*\.c:(\d+):\d+: error:", l)
            if m and hard(l) and int(m.group(1)) > head:
                s.add(chunk[int(m.group(1)) - head - 1][0])
        return s
    chunks = [list(enumerate(items))[i:i + 2000] for i in range(0, len(items), 2000)]
    for s in pmap(one, list(enumerate(chunks))):
        bad |= s
    return bad


def main_check():
    ck = Check("C10", "a program with a violation of a syntax rule or constraint, refused with status 1, a diagnostic and no "
               "assembly; every accepted one is shown to a reference compiler (gcc -pedantic-errors) before it counts as a violation")
    j = Judge(ck, build("plain"))
    findings = [f for f in load_findings() if f["property"] == "C10"]

    def known(text, why):
        lines = [l for l in why.split("\n") if hard(l)]
        for f in findings:
            if re.search(f["source"], text) and all(re.search(f["reference"], l) for l in lines) and \
                    len(lines) <= len(re.findall(f["cause"], why)):
                return f["id"], f["what"]
        return None
    for f in findings:
        j.judge(f["check_program"], "finding", known)
    # positive controls: the frames themselves are well-formed
    controls = []
    for ctx in EXPR_CTX:
        x = "gp" if ctx.startswith("*") else "gi"
        for _, pl in PLACE:
            controls.append(ENV + function(pl.replace("@R", "#R#").replace("@", ctx.replace("@", x)).replace("#R#", "@R"), "i") + "\n")
    for ar in AROUND:
        controls.append(ENV + ar.replace("@", function("gi = 1;", "i")) + "\n")
    for v, _ in pmap(j.umlcc_says, controls):
        ck.count("controls_accepted" if v == "accepted" else "controls_not_accepted")
    # the catalogue
    items = list(programs(rng("c10"), tier(5, 40)))
    pmap(lambda t: j.judge(t[1], t[0], known), items)
    # the operand matrix
    m = matrix(rng("c10m"), tier(0.12, 1.0))
    bad = reference_verdicts(m)
    ck.count("matrix_combinations", len(m))
    pmap(lambda i: j.judge(ENV + "int m_(int prm) { %s return 0; }\n" % m[i][1], "types: " + m[i][0], known), sorted(bad))
    # pairs of derived types which differ in one place, where they have to agree
    def types(i):
        label, text, same = typepairs.pair(rng("c10p", i))
        j.judge(text, "derived types that differ: " + label, known)
    pmap(types, range(tier(3500, 60000)))
    # lists of which one element is wrong, at every position
    def listed(i):
        label, text = positions.listed(rng("c10l", i))
        j.judge(text, "one of a list: " + label.split(",")[0], known)
    pmap(listed, range(tier(2500, 40000)))

    # jumps and labels where they may not be, names and labels given twice, near and far
    def placed(i):
        label, text = (misplaced.jumps if i % 3 else misplaced.twice)(rng("c10m2", i))
        if text:
            j.judge(text, "place: " + label, known)
    pmap(placed, range(tier(3000, 50000)))
    # single-token edits of valid programs: what the reference refuses must be refused
    edits = []
    n = tier(80, 600)
    for i in range(n):
        r = rng("c10e", i)
        if i % 2:
            text = classic(r, i)[0]
        else:
            text = program(r, i, size=2, stmts=5)[0]
        toks = ctok.tokens(text)
        for _ in range(tier(60, 150)):
            edits.append(ctok.edit(r, toks))
    pre = PRELUDE_TEXT
    pmap(lambda t: j.judge(pre + t, "token edit", known), edits)
    ck.finish(min_evaluations=3000)


from diff import PRELUDE as PRELUDE_TEXT

if __name__ == "__main__":
    main(main_check)
