"""C18: separately compiled files link and share globals and functions."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "gen"))
from diff import *
from multi import File, program_set

OTHER = {"gcc -O0": ["gcc", "-std=gnu99", "-w", "-O0", "-fwrapv", "-fno-strict-aliasing"], "gcc -O2": ["gcc", "-std=gnu99", "-w", "-O2", "-fwrapv", "-fno-strict-aliasing"],
         "gcc -O3": ["gcc", "-std=gnu99", "-w", "-O3", "-fwrapv", "-fno-strict-aliasing"], "clang -O2": ["clang", "-std=gnu99", "-w", "-O2", "-fwrapv", "-fno-strict-aliasing"],
         "clang -O1": ["clang", "-std=gnu99", "-w", "-O1", "-fwrapv", "-fno-strict-aliasing"], "gcc -O1 -fno-plt": ["gcc", "-std=gnu99", "-w", "-O1", "-fPIE", "-fno-plt", "-fwrapv", "-fno-strict-aliasing"]}
UBSAN = ["clang", "-std=gnu99", "-w", "-O0", "-fno-strict-aliasing", "-fsanitize=undefined", "-fno-sanitize=function", "-fsanitize-minimal-runtime"]
# clang trusts its counterpart to have widened a char it passes or returns, which the convention does not ask for
NARROW = re.compile(r"[(,]\s*(char|T_\d+) \w+[,)]|[(,]\s*(char|T_\d+)\s*[,)]|\b(char|T_\d+) \w+\(|\(\*\w+\)\(")
LINK = {"pie": [], "no-pie": ["-no-pie"], "gc-sections": ["-Wl,--gc-sections"], "static": ["-static"]}


# ---- written patterns: (files, entries, host code); @ is a number of its own
def F(text, defines, declares=(), foreign=False):
    return (text, defines.split(), tuple(declares), foreign)


PATTERNS = {
    "mutual recursion": ([F("int od@(int n, int d);\nint ev@(int n, int d) { log_i(n); if (n == 0) return d; return od@(n - 1, d * 2 % 1009); }\nvoid en@(void) { log_i(ev@(9, 3)); log_i(ev@(12, 5)); }\n", "ev@ en@", ["od@"]),
                          F("int ev@(int n, int d);\nint od@(int n, int d) { log_i(-n); if (n == 0) return -d; return ev@(n - 1, d + 7); }\n", "od@", ["ev@"])], ["en@"]),
    "callbacks": ([F("int ap@(int (*f)(int x), int n);\nint sq@(int x) { return x * x; }\nint ng@(int x) { return -x; }\nvoid en@(void) { int i; for (i = 0; i < 4; i++) { log_i(ap@(sq@, i)); log_i(ap@(&ng@, i)); } }\n", "sq@ ng@ en@", ["ap@"]),
                   F("int la@(int x) { return x + 100; }\nint ap@(int (*f)(int x), int n) { int r = f(n) + (*f)(n + 1); int (*g)(int x); g = la@; return r * 10 + g(n); }\n", "la@ ap@")], ["en@"]),
    "an object behind functions": ([F("int *cell@(int i); int get@(int i); void put@(int i, int v);\nvoid en@(void) { int *p; put@(1, 5); p = cell@(2); *p = 9; p[1] = 11; log_i(get@(1)); log_i(get@(2)); log_i(get@(3)); log_i(get@(0)); }\n", "en@", ["cell@", "get@", "put@"]),
                                    F("int st@[8] = {7, 6, 5};\nint *cell@(int i) { return &st@[i]; }\nint get@(int i) { return st@[i]; }\nvoid put@(int i, int v) { st@[i] = v; }\n", "st@ cell@ get@ put@")], ["en@"]),
    "structs by address": ([F("struct n { char t; long v; struct n *next; };\nint sum@(struct n *p); void link@(struct n *a, struct n *b);\nvoid en@(void) { struct n x; struct n y; struct n z; x.v = 5; y.v = 70; z.v = 900; x.t = 'a'; y.t = 'b'; z.t = 'c'; link@(&x, &y); link@(&y, &z); z.t = 0; log_i(sum@(&x)); log_c(x.next->next->t); log_l(x.next->v); }\n", "en@", ["sum@", "link@"]),
                            F("struct n { char t; long v; struct n *next; };\nvoid link@(struct n *a, struct n *b) { a->next = b; b->v += 1; }\nint sum@(struct n *p) { long s = 0; while (1) { s += p->v; if (p->t == 0) break; p = p->next; } return s; }\n", "link@ sum@")], ["en@"]),
    "many arguments": ([F("long lo@(char a, int b, long c, unsigned int d, char *e, int *f, long long g, unsigned long h, char i, int j);\nint gi@;\nvoid en@(void) { char s[4] = \"xyz\"; gi@ = 77; log_l(lo@(-3, 40000, 5000000000, 4000000000U, s, &gi@, -7LL, 8UL, 'q', -12)); log_i(gi@); log_c(s[1]); }\n", "gi@ en@", ["lo@"]),
                        F("long lo@(char a, int b, long c, unsigned int d, char *e, int *f, long long g, unsigned long h, char i, int j) { log_c(a); log_i(b); log_l(c); log_u(d); log_c(e[2]); log_i(*f); log_q(g); log_m(h); log_c(i); log_i(j); *f = 5; e[1] = '!'; return a + b + c - g + h * 2 + i * j; }\n", "lo@")], ["en@"]),
    "strings": ([F("char *nm@(int i); int len@(char *s);\nvoid en@(void) { int i; for (i = 0; i < 4; i++) { log_s(nm@(i)); log_i(len@(nm@(i))); log_i(len@(\"here\")); log_s(\"one\"); log_s(\"zero\"); } }\n", "en@", ["nm@", "len@"]),
                 F("char *nm@(int i) { switch (i) { case 0: return \"zero\"; case 1: return \"one\"; case 2: return \"\"; } return \"many\\n\\\"q\\\"\"; }\nint len@(char *s) { int n = 0; while (s[n]) n++; return n; }\n", "nm@ len@")], ["en@"]),
    "the same private names": ([F("struct p { int a; char b; }; enum q { A, B, C }; typedef char T;\nint fa@(int x); int fb@(int x);\nvoid en@(void) { struct p v; T t = 300; int counter = C; v.a = B; v.b = 'x'; log_i(v.a + counter); log_c(t); log_i(sizeof(struct p)); log_i(sizeof(T)); log_i(fa@(1)); log_i(fb@(2)); }\n", "en@", ["fa@", "fb@"]),
                                F("struct p { long b[3]; int a; }; enum q { C = 40, B, A }; typedef long T;\nint counter@;\nint fa@(int x) { struct p v; T t = 300; int fb = B; v.a = A; v.b[2] = t; counter@ += x; log_l(v.b[2]); log_i(sizeof(struct p)); log_i(sizeof(T)); return v.a * 100 + fb + counter@; }\n", "counter@ fa@"),
                                F("enum p { T, B = 9 }; struct q { char C; };\nint A@;\nint fb@(int x) { struct q en; int fa = T; en.C = B; { int x = 3; A@ += x; } if (x) { log_i(A@); } while (x > 0) { x--; A@++; } return en.C + fa + A@; }\n", "A@ fb@")], ["en@"]),
    "private names of one file are functions of another": ([F("int counter@(int x); int total@(int x);\nvoid en@(void) { log_i(counter@(3)); log_i(total@(4)); log_i(counter@(5)); }\n", "en@", ["counter@", "total@"]),
                                                            F("int st@;\nint counter@(int total@) { int en@ = 2; st@ += total@ * en@; { int st = 4; st@ += st; } return st@; }\n", "st@ counter@"),
                                                            F("struct counter@ { int st@; };\nint total@(int x) { struct counter@ en@; enum { counter2 = 3 }; en@.st@ = x; return en@.st@ * counter2; }\n", "total@")], ["en@"]),
    "objects named by another compiler": ([F("struct r { char c; int n[3]; struct r *p; };\nint ai@ = -5; char ac@ = 'k'; long al@ = 123456789012; unsigned int au@; int aa@[5] = {1, 2, 3}; char as@[8] = \"text\"; struct r ar@; struct r ax@[2] = {{'a', {1, 2, 3}}, {'b'}}; int *ap@; char *aq@; int (*af@)(int x); int am@[2][3] = {{1}, {4, 5}};\nint tw@(int x) { return x * 2 + ai@; }\nvoid ch@(void);\nvoid lg@(void) { int i; log_i(ai@); log_c(ac@); log_l(al@); log_u(au@); for (i = 0; i < 5; i++) log_i(aa@[i]); for (i = 0; i < 8; i++) log_c(as@[i]); log_c(ar@.c); log_i(ar@.n[2]); log_c(ax@[0].c); log_i(ax@[0].n[1]); log_c(ax@[1].c); log_i(am@[1][1]); log_i(am@[0][2]); }\nvoid en@(void) { lg@(); ch@(); lg@(); log_i(*ap@); log_c(*aq@); log_i(af@(4)); log_i(ar@.p->n[0]); }\n", "ai@ ac@ al@ au@ aa@ as@ ar@ ax@ ap@ aq@ af@ am@ tw@ lg@ en@", ["ch@"]),
                                           F("struct r { char c; int n[3]; struct r *p; };\nextern int ai@, aa@[5], *ap@, (*af@)(int), am@[2][3]; extern char ac@, as@[8], *aq@; extern long al@; extern unsigned au@; extern struct r ar@, ax@[2]; int tw@(int x);\nvoid ch@(void) { ai@ += 10; ac@++; al@ *= 2; au@ -= 1; aa@[4] = aa@[0] + 50; as@[5] = '!'; ar@.c = 'z'; ar@.n[2] = 31; ar@.p = &ax@[1]; ax@[1].n[0] = 64; ax@[0].n[1] += ax@[0].c; ap@ = &aa@[2]; aq@ = as@ + 1; af@ = tw@; am@[0][2] = am@[1][0] + am@[1][1]; }\n", "ch@", (), True)], ["en@"]),
    "arrays another compiler runs over": ([F("char x@ = 1; int va@[64]; char y@[3] = \"ab\"; int vb@[64] = {3, 1, 4, 1, 5}; char z@; long vl@[20] = {7}; char w@ = 'w'; unsigned int vu@[8]; struct r@ { char c; long v; }; char t@[5]; struct r@ vs@[6];\nvoid wk@(int n);\nvoid en@(void) { int i; int k; for (k = 0; k < 3; k++) { for (i = 0; i < 64; i++) va@[i] = i * k - 7; wk@(k); for (i = 0; i < 64; i += 5) { log_i(va@[i]); log_i(vb@[i]); } for (i = 0; i < 20; i++) log_l(vl@[i]); for (i = 0; i < 8; i++) log_u(vu@[i]); for (i = 0; i < 6; i++) { log_c(vs@[i].c); log_l(vs@[i].v); } log_c(x@); log_c(y@[1]); log_c(z@); log_c(w@); log_c(t@[4]); } }\n", "x@ va@ y@ vb@ z@ vl@ w@ vu@ t@ vs@ en@", ["wk@"]),
                                           F("struct r@ { char c; long v; }; extern int va@[64], vb@[64]; extern long vl@[20]; extern unsigned vu@[8]; extern struct r@ vs@[6];\nvoid wk@(int n) { for (int i = 0; i < 64; i++) va@[i] += vb@[i] * 3 + n; for (int i = 0; i < 64; i++) vb@[i] ^= va@[i]; for (int i = 0; i < 20; i++) vl@[i] += 5; for (int i = 0; i < 8; i++) vu@[i] = 9 * i; for (int i = 0; i < 6; i++) { vs@[i].c = i; vs@[i].v -= i; } }\n", "wk@", (), True)], ["en@"]),
    "the library": ([F("void *malloc(unsigned long n); void free(void *p); void *memcpy(void *d, void *s, unsigned long n); unsigned long strlen(char *s); int strcmp(char *a, char *b); void qsort(void *b, unsigned long n, unsigned long s, int (*c)(void *a, void *b)); int abs(int x); long labs(long x); int atoi(char *s); int toupper(int c); void *memset(void *p, int c, unsigned long n); char *strchr(char *s, int c);\n"
                       "int less@(void *a, void *b) { int *x; int *y; x = a; y = b; return (*x > *y) - (*x < *y); }\nvoid en@(void) { int a[7] = {5, -2, 9, 1, 7, 0, -8}; int i; char *m; qsort(a, 7, 4, less@); for (i = 0; i < 7; i++) log_i(a[i]); m = malloc(40); memset(m, 'x', 39); memcpy(m, \"hello\", 6); log_s(m); log_m(strlen(m)); log_i(strcmp(m, \"help\") < 0); log_i(strcmp(m, \"hello\")); log_c(*strchr(m, 'l')); log_c(m[20]); free(m); log_i(abs(-4)); log_l(labs(-5000000000)); log_i(atoi(\"-321\")); log_c(toupper('q')); }\n", "less@ en@",
                       "malloc free memcpy strlen strcmp qsort abs labs atoi toupper memset strchr".split()),
                     F("int other@(void) { return 1; }\n", "other@")], ["en@"]),
    "a function of every result type": ([F("char c@(int x); int i@(int x); long l@(int x); unsigned int u@(int x); unsigned long m@(int x); long long q@(int x); unsigned long long v@(int x); char *s@(int x); void z@(int x);\nvoid en@(void) { int k; for (k = -2; k < 300; k += 43) { log_c(c@(k)); log_i(c@(k) + 1); log_i(i@(k)); log_l(l@(k)); log_u(u@(k)); log_m(m@(k)); log_q(q@(k)); log_v(v@(k)); log_c(*s@(k)); z@(k); } }\n", "en@", "c@ i@ l@ u@ m@ q@ v@ s@ z@".split()),
                                         F("char t@[4] = \"abc\"; int last@;\nchar c@(int x) { return x; } int i@(int x) { return x * -3; } long l@(int x) { return x * 10000000000; } unsigned int u@(int x) { return x; } unsigned long m@(int x) { return x; } long long q@(int x) { return -x; } unsigned long long v@(int x) { return x * 7; } char *s@(int x) { return &t@[x & 1]; } void z@(int x) { last@ = x; log_i(last@); }\n", "t@ last@ c@ i@ l@ u@ m@ q@ v@ s@ z@")], ["en@"]),
    "loops and jumps in every file": ([F("int ga@(int n); int gb@(int n);\nint gc@(int n) { int s = 0; int i; for (i = 0; i < n; i++) { if (i == 3) continue; if (i > 6) break; s += i; } while (s > 10) { s -= 4; } switch (n & 3) { case 0: s += 100; break; case 1: s += 200; default: s++; } return n > 2 && s > 3 || n == 1 ? s : -s; }\nvoid en@(void) { int n; for (n = 0; n < 9; n++) { log_i(ga@(n)); log_i(gb@(n)); log_i(gc@(n)); } }\n", "gc@ en@", ["ga@", "gb@"]),
                                       F("int ga@(int n) { int s = 0; int i; for (i = n; i > 0; i--) { if (i == 2) continue; s += i * i; if (s > 40) break; } switch (s % 3) { case 2: s = -s; case 1: s--; break; } return s; }\n", "ga@"),
                                       F("int gb@(int n) { int s = n; while (s < 50) { s = s * 2 + 1; if (s == 15) break; } if (s > 20) { if (n) s = 1; else s = 2; } else if (s == 15) { s = 3; } else s = 4; return !s || n ? s ? 5 : 6 : 7; }\n", "gb@")], ["en@"]),
}


def pattern(name, k):
    fs, es = PATTERNS[name]
    sub = lambda t: t.replace("@", "_%d" % k)
    return [File(sub(t), {sub(x) for x in d}, {sub(x) for x in dc}, fo) for t, d, dc, fo in fs], [sub(e) for e in es]


class Multi:
    def __init__(self, ck, eng):
        self.ck, self.eng = ck, eng

    def symbols(self, f, obj, files):
        """what the object file defines and wants, against what the source defines and declares"""
        r = run(["nm", "-g", obj], timeout=60)
        if r.rc != 0:
            raise HarnessError("nm: " + r.err.decode("latin-1"))
        defined, wanted, text = set(), set(), set()
        for l in r.out.decode().split("\n"):
            p = l.split()
            if len(p) == 2 and p[0] in "UwW":
                wanted.add(p[1])
            elif len(p) == 3:
                defined.add(p[2])
                if p[1] in "TtWw":
                    text.add(p[2])
        self.ck.count("symbol tables compared")
        self.ck.count("symbols_seen", len(defined) + len(wanted))
        if defined != f.defines:
            self.ck.violation("the object file defines %s, the source %s" % (sorted(defined - f.defines) or "less: not " + str(sorted(f.defines - defined)), "does not" if defined - f.defines else "does"), files, key=("symbols", bool(defined - f.defines)))
        extra = wanted - f.declares - RUNTIME
        if extra:
            self.ck.violation("the object file wants %s, which the source does not declare" % sorted(extra), files, key=("wanted",))

    def one(self, what, files, entries, r):
        ck, eng = self.ck, self.eng
        d = eng.newdir()
        dump = {"f%d.c" % j: PRELUDE + f.text for j, f in enumerate(files)}
        try:
            cases = [Case("", e) for e in entries]
            dump["host.c"] = host_source(cases)
            with open(os.path.join(d, "host.c"), "w") as fh:
                fh.write(dump["host.c"])
            eng.host(d)
            objs = []
            for j, f in enumerate(files):
                src = os.path.join(d, "f%d.c" % j)
                with open(src, "w") as fh:
                    fh.write(PRELUDE + f.text)
                o = {}
                more = sorted(set(OTHER) - {"gcc -O0"} - ({"clang -O1", "clang -O2"} if NARROW.search(f.text) else set()))
                for nm_, cmd in [("ubsan", UBSAN), ("gcc -O0", OTHER["gcc -O0"])] + [(q, OTHER[q]) for q in (more if f.foreign and what in PATTERNS else r.sample(more, 1))]:
                    o[nm_] = os.path.join(d, "f%d.%s.o" % (j, re.sub(r"\W", "", nm_)))
                    must(cmd + ["-c", src, "-o", o[nm_]], "reference of a file")
                if not f.foreign:
                    b = eng.compile_umlcc(src)
                    if b.status == "timeout":
                        ck.inconclusive += 1
                        return
                    if b.status != "ok":
                        if b.status == "reject" and "too complex" in b.detail:
                            ck.count("given up for registers")
                            return
                        ck.violation("a file of a program is not translated: %s" % b.detail, dump, key=(what, b.status))
                        return
                    o["umlcc"] = os.path.join(d, "f%d.u.o" % j)
                    a = run(["as", src[:-2] + ".s", "-o", o["umlcc"]], timeout=120)
                    if a.rc != 0:
                        ck.violation("the assembler refuses a file: " + a.err.decode("latin-1")[:400], dump, key=(what, "asm"))
                        return
                    f_ = f
                    self.symbols(f_, o["umlcc"], dump)
                objs.append(o)
            n = len(entries)

            def link(pick, flags, order):
                exe = os.path.join(d, "x.exe")
                l = run(["gcc", "-z", "noexecstack"] + flags + [pick[j] for j in order] + [os.path.join(d, "host.o")] + eng.rt + ["-o", exe], timeout=120)
                return exe if l.rc == 0 else None, l.err.decode("latin-1")[:700]
            refs = []
            for q in ("ubsan", "gcc -O0"):
                exe, err = link([o[q] for o in objs], [], range(len(objs)))
                if exe is None:
                    raise HarnessError("the references do not link: %s\n%s" % (err, "\n---\n".join(f.text for f in files)))
                refs.append(eng.execute(exe, n))
            configs = [["umlcc" if "umlcc" in o else "gcc -O0" for o in objs]]
            for q in OTHER:     # files only another compiler can build, by each of the others
                c = [q if "umlcc" not in o and q in o else x for o, x in zip(objs, configs[0])]
                if c not in configs and what in PATTERNS:
                    configs.append(c)
            for _ in range(tier(2, 4)):
                c = [r.choice([q for q in o if q != "ubsan"] + (["umlcc", "umlcc"] if "umlcc" in o else [])) for o in objs]
                if any(x == "umlcc" for x in c) and c not in configs:
                    configs.append(c)
            for c in configs:
                order = list(range(len(objs)))
                r.shuffle(order)
                mode = r.choice(list(LINK))
                exe, err = link([o[q] for o, q in zip(objs, c)], LINK[mode], order)
                label = "files by %s, order %s, %s" % (", ".join(c), order, mode)
                ck.count("links: %d of %d files by this compiler" % (c.count("umlcc"), len(c)))
                if exe is None:
                    ck.violation("the files do not link (%s): %s" % (label, err), dump, key=(what, "link"))
                    continue
                tr = eng.execute(exe, n)
                for k in range(n):
                    good, diff, exc = eng.compare(cases[k], tr[k], refs[0][k], refs[1][k])
                    ck.count("subcases_excluded_ub_or_disagreement", exc)
                    for s, ev in good:
                        ck.observe((what, entries[k], tuple(c), tuple(order), mode, s))
                        ck.count("events_compared", len(ev))
                    if diff:
                        s, got, want, _ = diff
                        ck.violation("%s: %s logged %s, C semantics gives %s (%s)" % (what, entries[k], fmt(got), fmt(want), label), dump, key=(what if what in PATTERNS else "random", "trace"))
                        return
        finally:
            shutil.rmtree(d, True)


RUNTIME = {"_GLOBAL_OFFSET_TABLE_"} | set(re.findall(r"\b(log_\w|ev\w?|dirty)\(", PRELUDE))


def check():
    ck = Check("C18", "one program of several files, each file compiled by this compiler or another, linked in some order and mode and run: its event log compared with the same program wholly by two other compilers; the symbol table of each object compared with the source",
               assumptions=["the linker and the other compilers are right"])
    eng = Engine()
    m = Multi(ck, eng)

    def job(i):
        r = rng("c18", i)
        names = sorted(PATTERNS)
        if i % 3 == 0:
            name = names[i // 3 % len(names)]
            fs, es = pattern(name, i)
            if r.random() < 0.5:
                # in company
                fs2, es2 = pattern(r.choice([x for x in names if x != name]), i + 500000)
                fs, es = fs + fs2, es + es2
            m.one(name, fs, es, r)
        else:
            fs, es = program_set(r, i)
            m.one("random files", fs, es, r)
    pmap(job, range(tier(240, 4000)))
    ck.finish(min_evaluations=400)


if __name__ == "__main__":
    main(check)
