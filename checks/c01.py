"""C01: integer expressions compute what C defines, for every operator, operand type pair, operand
form and value."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "gen"))
from diff import *
from lang import *
import exprgen

N = [0]


def nid():
    N[0] += 1
    return N[0]


def case(tag, body, fn, ret, types, rnd, mode="n", count=24, extra=6):
    """body defines function fn(types...) returning ret; the host drives it over operand tuples."""
    seed = rnd.getrandbits(63)
    if mode == "2":
        call = "grid2((void *)%s, '%s', '%s', '%s', %dull, %d);" % (fn, ret, types[0], types[1], seed, extra)
    elif mode == "1":
        call = "grid1((void *)%s, '%s', '%s', %dull, %d);" % (fn, ret, types[0], seed, extra)
    else:
        call = "gridn((void *)%s, '%s', \"%s\", %dull, %d);" % (fn, ret, types, seed, count)
    h = "extern void %s();\nstatic void h_%s(void) { %s }\n" % (fn, fn, call)
    return Case(body, "h_" + fn, h, host_entry=True, stateful=False, tag=tag)


def params(types):
    return ", ".join("%s %s" % (NAME[t], n) for t, n in zip(types, "abcdefgh"))


def lit(rnd, t):
    v = rnd.choice(bounds(t)) if rnd.random() < 0.7 else rnd.getrandbits(8 * SIZE[t]) >> rnd.randrange(8 * SIZE[t])
    return literal(t, v)


# contexts that put the operands in different registers and stack positions
def ctx(rnd, e, t, depth):
    """wrap e (of type t) so that `depth` values are live while it is computed, without changing it"""
    while depth > 0:
        k = rnd.randrange(1, 1 << 7)
        form = rnd.randrange(4)
        depth -= 1
        if form == 0 and depth > 0:
            depth -= 1
            e = "(%d ^ (%d ^ %s))" % (k, k, e)
        elif form == 1:
            e = "(z_ + %s)" % e
        elif form == 2:
            e = "(z_ | %s)" % e
        else:
            e = "(z_ ^ %s)" % e
    return e


def binary_forms(rnd, op, t1, t2, quick):
    out = []
    r = result(op, t1, t2)
    R, A, B = NAME[r], NAME[t1], NAME[t2]

    def add(tag, body, ret=r, types=t1 + t2, mode="n", count=24):
        n = nid()
        out.append(case(tag, body.replace("@", str(n)), "f_%d" % n, ret, types, rnd, mode, count))

    P = params(t1 + t2)
    add("operands in parameters", "%s f_@(%s) { return a %s b; }" % (R, P, op), mode="2")
    # conversions of the result to another type, including through branches
    w = rnd.choice(TYPES)
    add("result converted", "%s f_@(%s) { %s x; x = a %s b; return x; }" % (NAME[w], P, NAME[w], op), ret=w)
    forms = []
    forms.append(("operands in globals", "%s ga_@; %s gb_@; %s f_@(%s) { ga_@ = a; gb_@ = b; return ga_@ %s gb_@; }" % (A, B, R, P, op)))
    forms.append(("operands through pointers", "%s f_@(%s) { %s *p; %s *q; p = &a; q = &b; return *p %s *q; }" % (R, P, A, B, op)))
    forms.append(("operands in arrays", "%s f_@(%s) { %s x[3]; %s y[3]; int i; i = 1; x[1] = a; x[0] = 1; x[2] = 2; y[2] = b; y[1] = 3; return x[i] %s y[i + 1]; }" % (R, P, A, B, op)))
    forms.append(("operands from calls", "%s l_@(%s x) { return x; } %s r_@(%s x) { return x; } %s f_@(%s) { return l_@(a) %s r_@(b); }" % (A, A, B, B, R, P, op)))
    forms.append(("operands in members", "struct s_@ { char p; %s x; char q; %s y; }; %s f_@(%s) { struct s_@ s; struct s_@ *t; t = &s; s.p = 1; s.q = 2; s.x = a; t->y = b; return t->x %s s.y; }" % (A, B, R, P, op)))
    forms.append(("operands computed", "%s f_@(%s) { int z_; z_ = 0; return (a + z_) %s (b - z_); }" % (NAME[result(op, promote(t1), promote(t2))], P, op)))
    forms.append(("cast operands", "%s f_@(%s) { return (%s)b %s (%s)a; }" % (R, P, A, op, B)))
    for tag, body in (rnd.sample(forms, 2) if quick else forms):
        add(tag, body, ret=result(op, promote(t1), promote(t2)) if tag == "operands computed" else r)
    add("under register pressure", "%s f_@(%s) { int z_; z_ = 0; return %s; }" % (R, P, ctx(rnd, "(a %s b)" % op, r, rnd.randrange(1, 6))))
    # as a condition
    conds = ["if (a %s b) return 1; return 0;", "if (!(a %s b)) return 1; return 0;", "return (a %s b) ? 5 : 7;",
             "while (a %s b) { return 1; } return 0;", "for (; a %s b;) { return 3; } return 4;",
             "return (a %s b) && (b || 1);", "return (a %s b) || 0;", "int x; x = 3; if (a %s b) { x = 9; } else { x = 8; } return x;"]
    for c in rnd.sample(conds, 1 if quick and op not in REL else 3):
        add("as a condition", "int f_@(%s) { %s }" % (P, c % op), ret="i")
    # constants on either side
    if t2 != "c":
        for _ in range(1 if quick else 4):
            add("right constant", "%s f_@(%s) { return a %s %s; }" % (R, params(t1), op, lit(rnd, t2)), types=t1, mode="1")
    if t1 != "c":
        for _ in range(1 if quick else 4):
            add("left constant", "%s f_@(%s a) { return %s %s a; }" % (R, B, lit(rnd, t1), op), types=t2, mode="1")
    if op in ASSIGN:
        add("compound assignment", "%s f_@(%s) { a %s= b; return a; }" % (A, P, op), ret=t1, mode="n" if quick else "2", count=40)
        lv = rnd.choice([("%s x[2]; x[1] = a; x[0] = 77;" % A, "x[1]"), ("%s *p; p = &a;" % A, "*p"),
                         ("struct { char k; %s x; } s; s.x = a;" % A, "s.x"), ("ga_@ = a;", "ga_@")])
        pre = "%s ga_@; " % A
        add("compound assignment value", "%s%s f_@(%s) { %s w; %s w = (%s %s= b); return w; }" % (pre, A, P, A, lv[0], lv[1], op), ret=t1)
    return out


def unary_forms(rnd, t, quick):
    out = []
    T = NAME[t]

    def add(tag, body, ret, types=t, mode="1", extra=12):
        n = nid()
        out.append(case(tag, body.replace("@", str(n)), "f_%d" % n, ret, types, rnd, mode, extra=extra))

    for op in UNARY:
        r = "i" if op == "!" else promote(t)
        for operand in ["a", "(%s)a" % T, "*p", "x[1]", "(a + 0)", "id_@(a)"]:
            add("unary", "%s id_@(%s x) { return x; } %s f_@(%s a) { %s *p; %s x[2]; p = &a; x[1] = a; return %s%s; }" % (T, T, NAME[r], T, T, T, op, operand), r)
        for o2 in UNARY:
            add("unary pairs", "%s f_@(%s a) { return %s(%sa); }" % (NAME["i" if op == "!" else r], T, op, o2), "i" if op == "!" else ("i" if o2 == "!" else r))
        add("unary pressure", "%s f_@(%s a) { int z_; z_ = 0; return %s; }" % (NAME[r], T, ctx(rnd, "(%sa)" % op, r, rnd.randrange(1, 6))), r)
        add("unary condition", "int f_@(%s a) { if (%sa) return 1; return 0; }" % (T, op), "i")
    for w in TYPES:
        W = NAME[w]
        add("cast", "%s f_@(%s a) { return (%s)a; }" % (W, T, W), w)
        add("assignment conversion", "%s f_@(%s a) { %s x; x = a; return x; }" % (W, T, W), w)
        add("initializer conversion", "%s f_@(%s a) { %s x = a; return x; }" % (W, T, W), w)
        add("return conversion", "%s f_@(%s a) { return a; }" % (W, T), w)
        add("argument conversion", "%s g_@(%s x) { return x; } %s f_@(%s a) { return g_@(a); }" % (W, W, W, T), w)
        add("assignment value", "%s f_@(%s a) { %s x; %s y; y = (x = a); return y; }" % (T, T, W, T), t)
        add("cast through memory", "%s g_@; %s f_@(%s a) { %s *p; g_@ = a; p = &g_@; return (%s)*p; }" % (T, W, T, T, W), w)
        for x in (rnd.sample(TYPES, 3) if quick else TYPES):
            add("cast chain", "%s f_@(%s a) { return (%s)(%s)a; }" % (W, T, W, NAME[x]), w)
            add("cast chain computed", "%s f_@(%s a) { int z_; z_ = 0; return (%s)(%s)(a + z_); }" % (W, T, W, NAME[x]), w)
            add("conversion chain", "%s f_@(%s a) { %s x; %s y; x = a; y = x; return y; }" % (W, T, NAME[x], W), w)
            rr = common(w, x)
            add("conditional types", "%s f_@(%s a) { return a ? (%s)a : (%s)3; }" % (NAME[rr], T, W, NAME[x]), rr)
            add("conditional types else", "%s f_@(%s a) { return a == 0 ? (%s)5 : (%s)a; }" % (NAME[rr], T, W, NAME[x]), rr)
    for e in ["a++", "++a", "a--", "--a"]:
        add("increment", "%s f_@(%s a) { %s x; x = %s; return x; }" % (T, T, T, e), t)
        add("increment effect", "%s f_@(%s a) { %s; return a; }" % (T, T, e), t)
        for lv, pre in [("(*p)", "%s *p; p = &a;" % T), ("x[1]", "%s x[3]; x[0] = 1; x[2] = 2; x[1] = a;" % T),
                        ("s.m", "struct { char k; %s m; char l; } s; s.m = a;" % T), ("g_@", "g_@ = a;")]:
            inc = e.replace("a", lv)
            add("increment lvalues", "%s g_@; %s f_@(%s a) { %s w; %s w = %s; return w; }" % (T, T, T, T, pre, inc), t)
            add("increment lvalues effect", "%s g_@; %s f_@(%s a) { %s %s; return %s; }" % (T, T, T, pre, inc, lv), t)
        add("increment in expression", "long f_@(%s a) { long w; w = 1000 - (%s); return w * 3 + a; }" % (T, e), "l")
    for c in ["if (A) return 1; return 0;", "if (!A) return 1; return 0;", "while (A) return 5; return 6;", "for (; A;) return 5; return 6;",
              "return A ? 3 : 4;", "return A && 1;", "return A || 0;", "return 1 && A;", "return !A;", "return !!A;",
              "int n; n = 0; while (!A) { n++; A++; } return n;"]:
        add("truth value", "int f_@(%s a) { %s }" % (T, c.replace("A", "a")), "i")
        add("truth value through memory", "int f_@(%s a) { %s x[2]; x[1] = a; %s }" % (T, T, c.replace("A", "x[1]")), "i")
    add("sizeof value", "long f_@(%s a) { return sizeof(a) + 16 * sizeof(%s) + 256 * sizeof(a + 1) + 4096 * sizeof(-a) + 65536 * sizeof a; }" % (T, T), "l")
    add("sizeof no evaluation", "%s f_@(%s a) { int s; s = sizeof(a++); return a; }" % (T, T), t)
    return out


def three_operand(rnd, n):
    """every pair of binary operators in both associations, random types"""
    out = []
    ops = ARITH + BIT + SHIFT + REL + LOGIC
    pairs = [(x, y) for x in ops for y in ops]
    while len(out) < n:
        o1, o2 = pairs[len(out) % len(pairs)]
        t = "".join(rnd.choice(TYPES) for _ in range(3))
        form = rnd.randrange(3)
        if form == 0:    # as written: the grammar's precedence decides
            e = "a %s b %s c" % (o1, o2)
            r = rnd.choice(TYPES)
        elif form == 1:
            e = "(a %s b) %s c" % (o1, o2)
            r = result(o2, result(o1, t[0], t[1]), t[2])
        else:
            e = "a %s (b %s c)" % (o1, o2)
            r = result(o1, t[0], result(o2, t[1], t[2]))
        k = nid()
        out.append(case("operator pairs", "%s f_%d(%s) { return %s; }" % (NAME[r], k, params(t), e), "f_%d" % k, r, t, rnd, "n", 24))
    return out


def precedence(rnd, n):
    """longer unparenthesised chains: the parse must follow C's precedence and associativity"""
    out = []
    ops = ARITH + BIT + SHIFT + REL + LOGIC
    for _ in range(n):
        m = rnd.randrange(3, 7)
        t = "".join(rnd.choice("iluv") for _ in range(m))
        e = "a"
        for j in range(1, m):
            op = rnd.choice(ops)
            x = "abcdefgh"[j]
            if op in SHIFT:
                x = "%d" % rnd.randrange(0, 31)
            elif op in "/%":
                x = "%d" % rnd.choice([1, 2, 3, 7, 10, 1000])
            if rnd.random() < 0.25:
                x = rnd.choice(["-", "~", "!", "+", "- -", "-~", "!!"]) + x
                if op in SHIFT or op in "/%":
                    x = x.lstrip("-~!+ ")
            e += " %s %s" % (op, x)
        if rnd.random() < 0.2:
            e += " ? a : b"
        r = rnd.choice("liv")
        k = nid()
        out.append(case("precedence chains", "%s f_%d(%s) { return %s; }" % (NAME[r], k, params(t), e), "f_%d" % k, r, t, rnd, "n", 30))
    return out


def unary_chains(rnd, n):
    """one or more unary operators and casts on every binary operation, as a value, an operand and a condition"""
    out = []
    ops = ARITH + BIT + SHIFT + REL + LOGIC
    # every pair on every operation of two int, of two of another type and of different ones, then chains of any length
    todo = [(op, us, t) for op in ops for us in [[x, y] for x in UNARY for y in UNARY] for t in ("ii", rnd.choice("lmuvqc") * 2)]
    todo += [(ops[j % len(ops)], None, rnd.choice(TYPES) + rnd.choice(TYPES)) for j in range(n)]
    for op, us, t in todo:
        b = "b" if rnd.random() < 0.5 else "%d" % rnd.randrange(0, 8) if op in SHIFT else literal(t[1] if t[1] != "c" else "i", rnd.choice([1, 2, 3, 7, 12, 100, 127]))
        e = "(%s %s %s)" % (("a", op, b) if rnd.random() < 0.8 else (b, op, "a"))
        if rnd.random() < 0.2:
            e = "(%s ? a : %s)" % (e, b)
        for u in us or [rnd.choice(["!", "!", "!", "~", "~", "-", "-", "+", "(%s)" % NAME[rnd.choice(TYPES)]]) for _ in range(rnd.choice([1, 2, 2, 2, 3, 4]))]:
            e = u + (" " if e.startswith(u) and u in "-+" else "") + e
        use = rnd.choice(["return @;", "return 3 + @;", "w_ = @; return w_;"]) if us else rnd.choice(["return @;", "return @;", "return @;", "return 3 + @;", "return @ * 5;", "return @ %s b;" % rnd.choice(["+", "^", "<", "=="]), "if (@) return 1; return 2;", "return @ ? 7 : 9;",
                          "w_ = @; return w_;", "c_ = @; return c_;", "return @ && a;", "return b || @;", "while (@) return 4; return 5;"])
        r = rnd.choice("lviu")
        k = nid()
        out.append(case("unary operators on operations", "%s f_%d(%s) { long w_; char c_; w_ = 1; c_ = 1; %s }" % (NAME[r], k, params(t), use.replace("@", e)), "f_%d" % k, r, t, rnd, "n", 40))
    return out


def with_constants(rnd, n):
    """every operator with a constant of any size on either side: what is special about a constant must not show"""
    out = []
    ks = sorted({s * (2 ** k + d) for k in range(0, 64) for d in (-1, 0, 1) for s in (1, -1)} | {10 ** k for k in range(1, 19)}
                | {3, 5, 6, 7, 9, 12, 24, 25, 60, 100, 360, 641, 6700417, 0xaaaaaaaa, 0x55555555, 0xff00ff, 0xffff0000})
    todo = [(t, kt, v) for t in TYPES for kt in "iulmqv" for v in ks if wrap(kt, v) == v]
    rnd.shuffle(todo)
    for t, kt, v in todo[:n]:
        K, T = literal(kt, v), NAME[t]
        m = ["h_ = h_ * 31 + (%s);" % x for x in ("a & K", "a | K", "a ^ K", "a == K", "a < K", "a > K", "a <= K", "a >= K", "a != K", "K & a", "K < a", "K >= a", "K ^ a", "a ? K : a", "a && K", "K || a")]
        parts = [m, ["h_ = h_ * 31 + (a + K);"], ["h_ = h_ * 31 + (a - K); h_ = h_ * 31 + (K - a);"], ["h_ = h_ * 31 + (a * K);"], ["x_ = a; x_ += K; h_ = x_;"], ["x_ = a; x_ *= K; h_ = x_;"], ["x_ = a; x_ |= K; h_ = x_;"],
                 ["h_ = h_ * 31 + (K / a); h_ = h_ * 31 + (K % a);"]]
        if v != 0:
            parts.append(["h_ = h_ * 31 + (a / K); h_ = h_ * 31 + (a % K);"])
            parts.append(["x_ = a; x_ /= K; h_ = x_; x_ = a; x_ %= K; h_ = h_ * 31 + x_;"])
        if 0 <= v < 64:
            parts.append(["h_ = h_ * 31 + (a >> K);"])
            parts.append(["h_ = h_ * 31 + (a << K);"])
        # every operator now and then, division always: it is where a constant invites special cases
        for p in [q for q in parts if "/" in q[0] or rnd.random() < 0.3]:
            k = nid()
            body = "%s f_%d(%s a) { %s h_; %s x_; x_ = 0; h_ = 7; %s return h_; }" % (NAME["v"], k, T, NAME["v"], T, " ".join(p).replace("K", K))
            out.append(case("operators with a constant", body, "f_%d" % k, "v", t, rnd, "1", extra=8))
    return out


def literals(rnd, n):
    """constants in every base, suffix and magnitude, with the type C gives them"""
    out = []
    vals = sorted(set(v for t in "iulv" for v in bounds(t) if v >= 0) | {2 ** k + d for k in (7, 8, 15, 16, 31, 32, 33, 62, 63) for d in (-1, 0, 1)} | {2 ** 64 - 1})
    todo = []
    for v in vals:
        for suf in ["", "u", "U", "l", "L", "ul", "UL", "lu", "ll", "LL", "ull", "LLU", "Ull"]:
            for base in ("d", "x", "o", "X"):
                if base == "d" and "u" not in suf.lower() and v > 2 ** 63 - 1:
                    continue  # no type in C99
                if base != "d" and v > 2 ** 64 - 1:
                    continue
                todo.append((v, suf, base))
    rnd.shuffle(todo)
    for v, suf, base in todo[:n]:
        s = {"d": "%d", "x": "0x%x", "o": "0%o", "X": "0X%X"}[base] % v + suf
        k = nid()
        u = "void t_%d(void) { log_v(%s); log_i(sizeof(%s)); log_i(-%s < 0); log_q(%s); log_i(%s); log_l(%s - 1); log_c(%s); }" % (k, s, s, s, s, s, s, s)
        out.append(Case(u, "t_%d" % k, tag="literals"))
    return out


def expression_types(rnd, n):
    """the type of every expression form: its size, and the signedness of its promoted type"""
    out = []
    V = {"c": ["c1", "c2"], "i": ["i1", "i2"], "u": ["u1", "u2"], "l": ["l1", "l2"], "m": ["m1", "m2"], "q": ["q1", "q2"], "v": ["v1", "v2"]}
    decl = " ".join("%s %s; %s %s; %s = 1; %s = 1;" % (NAME[t], a, NAME[t], b, a, b) for t, (a, b) in V.items())
    forms = []
    for t1 in TYPES:
        a, b = V[t1]
        forms += [x % a for x in ("%s", "+%s", "-%s", "~%s", "!%s", "%s++", "++%s", "%s--", "--%s", "(%s)")]
        forms += ["(%s)%s" % (NAME[t2], a) for t2 in TYPES]
        for t2 in TYPES:
            y = V[t2][1]
            forms += ["%s %s %s" % (a, op, y) for op in BINARY] + ["%s = %s" % (a, y), "i1 ? %s : %s" % (a, y)]
            forms += ["%s %s= %s" % (a, op, y) for op in ASSIGN]
    rnd.shuffle(forms)
    for f in forms[:n]:
        k = nid()
        u = "void t_%d(void) { %s log_i(sizeof(%s)); log_i(((%s) & 0) - 1 < 0); log_v(((%s) & 0) - 1); log_i(sizeof(+(%s))); log_i(sizeof((%s) + c1)); }" % (k, decl, f, f, f, f, f)
        out.append(Case(u, "t_%d" % k, tag="types of expressions"))
    return out


def composites(rnd, n):
    out = []
    for _ in range(n):
        k = nid()
        p = exprgen.Program(rnd, k)
        u, fn, ret, types = p.function(depth=rnd.randrange(2, 6))
        out.append(case("random expressions", u, fn, ret, types, rnd, "n", 20))
    return out


def check():
    quick = TIER == "quick"
    ck = Check("C01", "one evaluation = one call of a compiled function with concrete operands whose result was compared "
               "with the value C defines; counted only where both reference compilers agree and the UB monitor is silent",
               assumptions=["gcc 13 -O0 -fwrapv and clang 18 -O0 agreeing, without undefined behaviour, give the value C defines",
                            "operand values: all pairs of boundary values per type pair plus seeded random tuples"])
    e = Engine()
    rnd = rng("c01")
    cases = []
    for op in BINARY:
        for t1 in TYPES:
            for t2 in TYPES:
                cases += binary_forms(rnd, op, t1, t2, quick)
    for t in TYPES:
        cases += unary_forms(rnd, t, quick)
    cases += three_operand(rnd, tier(648, 6000))
    cases += precedence(rnd, tier(300, 4000))
    cases += unary_chains(rnd, tier(400, 8000))
    cases += with_constants(rnd, tier(800, 20000))
    cases += literals(rnd, tier(500, 100000))
    cases += expression_types(rnd, 100000)
    cases += composites(rnd, tier(900, 15000))
    rnd.shuffle(cases)
    ck.count("functions", len(cases))
    e.evaluate(ck, cases, size=120)
    e.findings(ck)
    ck.finish(min_evaluations=20000)


if __name__ == "__main__":
    main(check)
