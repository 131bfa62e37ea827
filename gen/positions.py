"""lists in which one element, at any position, has a type that may not be there"""

# type -> (declaration with @ for the name, values that fit, values that do not)
TYPES = {
    "int": ("int @", ["gi", "5", "gc", "gl", "'a'", "gi + 1"], ["gp", "gps", "gpf", "gs", '"s"', "&gi", "fv()", "ga"]),
    "char": ("char @", ["gi", "gc", "7"], ["gp", "gcp", "gpf", "gs", "fv()", '"s"']),
    "long": ("long @", ["gi", "gl", "7"], ["gp", "gcp", "gps", "gpf", "gs", "fv()"]),
    "unsigned long": ("unsigned long @", ["gi", "gl", "7"], ["gp", "gcp", "gpp", "gs", "fv()"]),
    "int *": ("int *@", ["gp", "&gi", "ga", "&ga[1]"], ["gl", "gi", "5", "gcp", "glp", "gpp", "gup", "gps", "gs", '"s"', "&ga", "&gp", "fv()"]),
    "char *": ("char *@", ["gcp", '"s"', "&gc"], ["gl", "gi", "gp", "gps", "gs", "&gcp", "fv()"]),
    "long *": ("long *@", ["glp", "&gl"], ["gl", "gp", "gcp", "gpp", "&glp", "gup", "fv()"]),
    "struct S *": ("struct S *@", ["gps", "&gs", "gs.n"], ["gpt", "gp", "gl", "gs", "gcp", "&gps", "fv()", "gi"]),
    "struct T *": ("struct T *@", ["gpt", "&gt"], ["gps", "gp", "gl", "gt", "&gs", "fv()"]),
    "int **": ("int **@", ["gpp", "&gp"], ["gp", "gcp", "gl", "&gcp", "&gpp", "gps", "fv()"]),
    "int (*)(int)": ("int (*@)(int x)", ["gpf", "f1", "&f1"], ["f2", "f0", "fl", "gi", "gl", "f1(1)", "gs"]),
    "int (*)[3]": ("int (*@)[3]", ["&ga", "gpa"], ["ga", "&gb", "gp", "gl", "&gi", "gpp"]),
}
ENV = ("struct S { int a; char *b; struct S *n; }; struct T { int a; char *b; struct S *n; };\n"
       "int gi; char gc; long gl; unsigned int *gup; int *gp; char *gcp; long *glp; struct S gs; struct S *gps; struct T gt; struct T *gpt; int **gpp;\n"
       "int ga[3]; int gb[4]; int (*gpa)[3]; int (*gpf)(int x); int f1(int x); int f2(int x, int y); int f0(void); long fl(int x); void fv(void);\n")


def listed(r):
    """(label, text): a list of 1 to 14 places, of which one gets what it may not get"""
    n = r.choice([1, 2, 3, 4, 5, 6, 7, 7, 8, 8, 9, 10, 11, 12, 14])
    names = list(TYPES)
    ts = [r.choice(names) for _ in range(n)]
    if r.random() < 0.3:
        ts = [ts[0]] * n
    p = r.randrange(n)
    vals = [r.choice(TYPES[t][1]) for t in ts]
    d = lambda t, name: TYPES[t][0].replace("@", name)
    params = ", ".join(d(t, "p%d" % i) for i, t in enumerate(ts))
    bad = r.choice(TYPES[ts[p]][2])
    good = vals[:]
    vals[p] = bad
    args = ", ".join(vals)
    where = "position %d" % (p + 1)
    x = r.randrange(11)
    if x == 0:
        return "argument, " + where, ENV + "int g(%s);\nint m(void) { return g(%s); }\n" % (params, args)
    if x == 1:
        return "argument through a pointer, " + where, ENV + "int (*g)(%s);\nint m(void) { return g(%s); }\n" % (params, args)
    if x == 2:
        return "argument of a member, " + where, ENV + "struct H { int q; int (*g)(%s); };\nint m(struct H *h) { return h->g(%s); }\n" % (params, args)
    if x == 3:
        return "argument of a function defined there, " + where, ENV + "int g(%s) { return 1; }\nint m(void) { return g(%s) + g(%s); }\n" % (params, ", ".join(good), args)
    if x == 4:
        return "initializer of a member, " + where, ENV + "struct H { %s; };\nint m(void) { struct H h = {%s}; return 0; }\n" % ("; ".join(d(t, "p%d" % i) for i, t in enumerate(ts)), args)
    if x == 5:
        t = ts[p]
        v = [r.choice(TYPES[t][1]) for _ in range(n)]
        v[p] = bad
        return "initializer of an element, " + where, ENV + "int m(void) { %s = {%s}; return 0; }\n" % (d(t, "h[%d]" % n), ", ".join(v))
    if x == 6:
        us = ts[:]
        while us[p] == ts[p]:
            us[p] = r.choice(names)
        return "parameter of a function pointer, " + where, ENV + "int (*g)(%s); int (*h)(%s);\nint m(void) { g = h; return 0; }\n" % (params, ", ".join(d(t, "p%d" % i) for i, t in enumerate(us)))
    if x == 7:
        k = r.choice([-1, 1])
        v = good + [r.choice(TYPES[r.choice(names)][1])] if k == 1 else good[:-1]
        return "number of arguments, %d instead of %d" % (len(v), n), ENV + "int g(%s);\nint m(void) { return g(%s); }\n" % (params, ", ".join(v))
    if x == 8:
        t = ts[p]
        mem = "; ".join(d(t2, "q%d" % i) for i, t2 in enumerate(ts))
        return "assignment to a member, " + where, ENV + "struct H { %s; };\nint m(struct H *h) { h->q%d = %s; return 0; }\n" % (mem, p, bad)
    if x == 9:
        v = [r.choice(TYPES["int"][1]) for _ in range(n)]
        v[p] = "nowhere"
        form = r.choice(["g(%s)", "g(%s)", "h"])
        if form == "h":
            return "undeclared in a list, " + where, ENV + "int m(void) { int h[%d] = {%s}; return 0; }\n" % (n, ", ".join(v))
        return "undeclared in a list, " + where, ENV + "int g(%s);\nint m(void) { return g(%s); }\n" % (", ".join("int p%d" % i for i in range(n)), ", ".join(v))
    # statements in a row, one of which is wrong
    st = ["gi = %d;" % i for i in range(n)]
    st[p] = r.choice(["gp = gl;", "gi = gp;", "break;", "nowhere = 1;", "5 = gi;", "gs = gi;", "gi();", "*gi;", "gi.a;", "gp->a;", "continue;", "case 1: ;", "default: ;", "int gi = gp;", "f1();", "f1(1, 2);", "gps->zz = 1;", "&5;", "gs++;", "return gs;"])
    return "statement, " + where, ENV + "int m(void) { %s return 0; }\n" % " ".join(st)
