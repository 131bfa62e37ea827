"""C02: control flow and sequencing."""
import itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "gen"))
from diff import *
from lang import *
import bare, stmtgen

N = [0]


def nid():
    N[0] += 1
    return N[0]


def drive(fn, tuples, types, ret="i"):
    """host code calling fn on each tuple, one sub-case each"""
    rows = ", ".join("{%s}" % ", ".join("(u64)%dll" % v for v in t) for t in tuples)
    n = len(types)
    return ("extern void %s();\nstatic void h_%s(void) { static const long long v[][%d] = {%s};\n"
            "  for (int i = 0; i < %d; i++) { u64 a[%d] = {0}; %s sub(); log_as('%s', abi_call((void *)%s, a, %d)); } }\n" % (
                fn, fn, n, rows.replace("(u64)", ""), len(tuples), max(6, n),
                " ".join("a[%d] = ax_%s(v[i][%d]);" % (j, t, j) for j, t in enumerate(types)), ret, fn, n))


def case(tag, u, fn, tuples, types, ret="i"):
    return Case(u, "h_" + fn, drive(fn, tuples, types, ret), host_entry=True, stateful=False, tag=tag)


TUP2 = [(a, b) for a in (0, 1, 2, 3) for b in (0, 1, 2)] + [(-1, 5), (7, -2), (97, 98)]


def random_functions(rnd, n):
    out = []
    for _ in range(n):
        k = nid()
        types = rnd.choice(["ii", "ii", "il", "uc", "ci", "lv"])
        g = stmtgen.Stmts(rnd, k, types, max_stmts=rnd.choice([10, 20, 40, 80]))
        u, fn = g.function(depth=rnd.randrange(2, 6))
        out.append(case("random statements", u, fn, TUP2, types))
    return out


def logic_trees(rnd, n):
    """all small trees of the sequenced operators, as value, condition, negated, argument, subscript"""
    out = []

    def tree(d, leaf):
        if d == 0 or rnd.random() < 0.15:
            return leaf()
        x = rnd.randrange(5)
        if x == 0:
            return "(%s && %s)" % (tree(d - 1, leaf), tree(d - 1, leaf))
        if x == 1:
            return "(%s || %s)" % (tree(d - 1, leaf), tree(d - 1, leaf))
        if x == 2:
            return "!(%s)" % tree(d - 1, leaf)
        if x == 3:
            return "(%s ? %s : %s)" % (tree(d - 1, leaf), tree(d - 1, leaf), tree(d - 1, leaf))
        return "(%s %s %s)" % (tree(d - 1, leaf), rnd.choice(["==", "!=", "<"]), rnd.choice(["0", "1"]))

    for _ in range(n):
        k = nid()
        cnt = [0]
        bits = rnd.randrange(2, 6)

        def leaf():
            cnt[0] += 1
            return "ev2(%d, (a >> %d) & 1)" % (cnt[0], rnd.randrange(bits))
        e = tree(rnd.randrange(1, 5), leaf)
        use = rnd.choice(["return %s;", "if (%s) ev(100); else ev(101); return 5;", "int x; x = %s; log_i(x); return x + 1;",
                          "int n; n = 0; while (%s) { ev(200); n++; if (n > 1) break; a++; } return n;", "log_i(%s); return 0;",
                          "int y[2]; y[0] = 11; y[1] = 22; return y[!(%s)];", "return -(%s) * 3;", "int n; n = 0; for (; %s; a++) { n++; if (n > 2) return n; } return 40 + n;",
                          "switch (%s) { case 0: ev(300); case 1: ev(301); break; default: ev(302); } return 1;", "%s; return 8;"])
        u = "int f_%d(int a) { %s }" % (k, use % e)
        out.append(case("sequenced operators", u, "f_%d" % k, [(v,) for v in range(min(32, 1 << bits))], "i"))
    return out


def switches(rnd, n):
    """switch over every controlling type, label order, default position, fallthrough pattern"""
    out = []
    for i in range(n):
        k = nid()
        t = rnd.choice(TYPES)
        cnt = rnd.choice([0, 1, 2, 3, 5, 8, 20, 40]) if i % 40 else rnd.choice([130, 260, 300, 520, 700])
        pool = set([rnd.randrange(0, 60 if cnt < 100 else 2 * cnt) for _ in range(cnt)] + ([127, 128, 255, 256, 2147483647][:cnt // 2]))
        if i % 40 == 0 and t == "c":
            t = "i"
        if SIZE[t] == 8 and rnd.random() < 0.7:
            # values beyond int, some of them alike in their lower halves
            low = sorted(pool)
            for _ in range(rnd.randrange(1, 2 + cnt // 2)):
                pool.add(rnd.choice([2147483648, 3000000000, 4294967295, 4294967296, 4294967296 + rnd.choice(low or [7]), (rnd.randrange(1, 1 << 20) << 32) + rnd.choice(low or [3]), 1 << rnd.randrange(32, 63), (1 << 63) - 1]))
        pool = sorted(pool)
        rnd.shuffle(pool)
        # labels must fit the promoted controlling type to be portable between the compilers
        items = [("case %d:" % v, v) for v in pool]
        if rnd.random() < 0.7:
            items.insert(rnd.randrange(len(items) + 1), ("default:", None))
        body = []
        for lab, v in items:
            body.append(lab)
            x = rnd.random()
            if x < 0.15:
                continue
            body.append("ev(%d);" % rnd.randrange(1000))
            if x < 0.55:
                body.append("break;")
            elif x < 0.65:
                body.append("return %d;" % rnd.randrange(100))
            elif x < 0.75:
                body.append("{ int q; q = ev(%d); if (q & 1) break; log_i(q); }" % rnd.randrange(1000))
        if body and body[-1].endswith(":"):
            body.append(";")
        u = "int f_%d(%s a) { int i; i = 0; switch (%s) { %s } ev(7777); return 3; }" % (k, NAME[t], rnd.choice(["a", "a", "a + 0", "(a)"]), " ".join(body))
        vals = sorted(set(wrap(t, v) for v in pool + [0, 1, 5, 61, -1, 1000, 256 + (pool[0] if pool else 0), 2 ** 32 + (pool[-1] if pool else 0), -128] + [v & 0xffffffff for v in pool] + [v + 1 for v in pool if v >= 1 << 31]))
        out.append(case("switch", u, "f_%d" % k, [(v,) for v in vals], t))
    return out


def loops(rnd, n):
    """loops inside loops and switches with jumps out of and back to each level"""
    out = []
    for _ in range(n):
        k = nid()
        lv = rnd.randrange(1, 4)
        kinds = [rnd.choice(["for", "while", "switch", "for"]) for _ in range(lv)]
        if "for" not in kinds and "while" not in kinds:
            kinds[0] = "for"
        pre, post, decl, inloop = "", "", "", 0
        ids = itertools.count(1)
        for j, kind in enumerate(kinds):
            v = "v%d" % j
            decl += "int %s; %s = 0; " % (v, v)
            jump = rnd.choice(["break;", "continue;" if inloop or kind != "switch" else "break;", "return %d;" % j, ";"])
            test = "if (ev2(%d, %s) == b) %s" % (next(ids), "v%d" % rnd.randrange(j + 1), jump)
            if kind == "for":
                inloop = 1
                pre += "for (%s = 0; %s < %s; %s++) { ev(%d); %s " % (v, v, rnd.choice(["a", "3", "2"]), v, next(ids), test)
                post = "%s ev(%d); } ev(%d); " % (test.replace("== b", "!= a") if rnd.random() < 0.5 else "", next(ids), next(ids)) + post
            elif kind == "while":
                inloop = 1
                pre += "%s = 0; while (%s++ < 3) { ev(%d); %s " % (v, v, next(ids), test)
                post = "ev(%d); } ev(%d); " % (next(ids), next(ids)) + post
            else:
                sel = rnd.choice(["a", "b", "v%d" % max(0, j - 1)])
                pre += "switch (%s) { case 2: ev(%d); case 0: ev(%d); %s default: ev(%d); " % (sel, next(ids), next(ids), test, next(ids))
                post = "ev(%d); %s case 1: ev(%d); } ev(%d); " % (next(ids), rnd.choice(["break;", ""]), next(ids), next(ids)) + post
        u = "int f_%d(int a, int b) { %s %s ev(0); %s return 77; }" % (k, decl, pre, post)
        out.append(case("nested loops and switches", u, "f_%d" % k, [(a, b) for a in range(4) for b in range(4)], "ii"))
    return out


def scattered_labels(rnd, n):
    """case and default labels inside nested blocks, branches and loops of the switch body"""
    out = []
    for _ in range(n):
        k = nid()
        labels = ["case %d:" % v for v in rnd.sample(range(0, 6), rnd.randrange(1, 6))]
        if rnd.random() < 0.6:
            labels.append("default:")
        rnd.shuffle(labels)
        ids = itertools.count(1)
        nv = itertools.count(0)

        def st(d, loop):
            lab = ""
            while labels and rnd.random() < 0.45:
                lab += labels.pop() + " "
            x = rnd.random()
            if jumps and x < 0.22:
                # what follows is reached by a label only
                j = rnd.choice(["break;", "return %d;" % next(ids)] + ["continue;"] * loop)
                return lab + rnd.choice(["%s", "{ %s }", "if (ev2(%d, b)) %%s else %%s" % next(ids)]).replace("%s", j)
            if d == 0 or x < 0.35:
                return lab + "ev(%d);" % next(ids)
            const = jumps and rnd.random() < 0.3
            c = rnd.choice(CONSTANT) if const else "ev2(%d, %s)" % (next(ids), rnd.choice(["a & 1", "b", "a == 2"]))
            if x < 0.5:
                return lab + "if (%s) { %s } else { %s }" % (c, seq(d - 1, loop), seq(d - 1, loop))
            if x < 0.6:
                return lab + "if (%s) %s" % (c, st(d - 1, loop))
            if const and x < 0.64:
                return lab + "while (%s) { %s break; }" % (c, seq(d - 1, 0))
            if const and x < 0.68:
                return lab + "for (; %s; ev(%d)) { %s break; }" % (c, next(ids), seq(d - 1, 0))
            if x < 0.75:
                return lab + "while (v%d++ < 2) { %s }" % (next(nv) % 6, seq(d - 1, 1))
            if x < 0.85:
                return lab + "for (; v%d < 3; v%d++) { %s }" % (((next(nv) % 6),) * 2 + (seq(d - 1, 1),))
            if x < 0.95:
                return lab + "{ %s }" % seq(d - 1, loop)
            return lab + "if (ev2(%d, b)) break;" % next(ids)

        def seq(d, loop):
            return " ".join(st(d, loop) for _ in range(rnd.randrange(1, 4 + jumps)))
        jumps = rnd.randrange(2)
        body = seq(3, 0)
        if labels:
            body += " " + " ".join(labels) + " ev(%d);" % next(ids)
            labels.clear()
        sw = "switch (a) { %s }" % body
        if rnd.random() < 0.15:
            sw = rnd.choice(["switch (a) case 2: ev(800);", "switch (a) default: ev(801);", "switch (a) while (v0++ < 3) { case 1: ev(802); case 3: ev(803); }",
                             "switch (a) { }", "switch (a) ;", "switch (a) if (b) { case 1: ev(804); } else { case 2: ev(805); }"])
        u = "int f_%d(int a, int b) { int v0; int v1; int v2; int v3; int v4; int v5; v0 = v1 = v2 = v3 = v4 = v5 = 0; %s ev(900); return v0 + 10 * v1 + 100 * v2 + 1000 * v3; }" % (k, sw)
        out.append(case("scattered labels", u, "f_%d" % k, [(a, b) for a in range(-1, 7) for b in (0, 1)], "ii"))
    return out


CONSTANT = ["0", "1", "0", "1", "2", "0L", "4294967296L", "'a'", "'\\0'", "!1", "!0", "1 - 1", "0 == 0", "1 && 0", "0 || 1", "-1", "(char)256", "(int)sizeof(int)", "0u"]


def constants(rnd, n):
    """constants where events decide elsewhere: as conditions of statements, operands of sequenced operators, and beside an
    operand with an event in expressions whose value they decide"""
    out = []
    for _ in range(n):
        k = nid()
        ids = itertools.count(1)
        ev = lambda: rnd.choice(["ev2(%d, a)", "ev2(%d, b)", "evl(%d, a)", "evc(%d, b)", "ev2(%d, 1)", "ev2(%d, 0)", "(v++ + ev2(%d, a))"]) % next(ids)
        pick = lambda: rnd.choice(CONSTANT + ["E%da" % k, "E%db" % k])

        def side(d):
            """one event-producing operand under operators with constants: nothing else produces events"""
            if d == 0:
                return rnd.choice([ev(), ev(), "v++", "--v", "(v += 3)", "(v = a)", "p[ev2(%d, 1)]" % next(ids), "-ev2(%d, a)" % next(ids), "(char)ev2(%d, a)" % next(ids), "!ev2(%d, b)" % next(ids),
                                   "ev2(%d, v++)" % next(ids), "*(p + ev2(%d, 2))" % next(ids), "(ev2(%d, a) ? 5 : 5)" % next(ids), "(v++ ? b : b)"])
            e = side(d - 1)
            op = rnd.choice(["*", "*", "&", "|", "^", "+", "-", "==", "!=", "<", ">=", "<=", ">", "%", "/", ">>", "<<"])
            c = rnd.choice(["0", "0", "1", "-1", "2", "0L", "1u", "0u", "4294967295u", "-1L", "2147483647"])
            if op in ("%", "/"):
                return "(%s %s %s)" % (e, op, rnd.choice(["1", "1", "1L", "2", "4294967295u"]))
            if op in ("<<", ">>"):
                return "(%s %s %s)" % ((e, op, rnd.choice(["0", "0", "1", "31"])) if rnd.random() < 0.6 else ("0", op, "(%s & 7)" % e))
            return "(%s %s %s)" % ((e, op, c) if rnd.random() < 0.6 else (c, op, e))

        def seqd(d):
            if d == 0:
                return pick() if rnd.random() < 0.5 else side(rnd.randrange(2))
            x = rnd.random()
            if x < 0.35:
                return "(%s && %s)" % (seqd(d - 1), seqd(d - 1))
            if x < 0.7:
                return "(%s || %s)" % (seqd(d - 1), seqd(d - 1))
            if x < 0.8:
                return "!(%s)" % seqd(d - 1)
            return "(%s ? %s : %s)" % (seqd(d - 1), seqd(d - 1), seqd(d - 1))
        body = ""
        for _ in range(rnd.randrange(1, 5)):
            e = side(rnd.randrange(4)) if rnd.random() < 0.5 else seqd(rnd.randrange(3))
            body += rnd.choice(["x = %s; log_i(x); ", "log_l(%s); ", "%s; ", "if (%s) ev(900); ", "if (%s) ev(900); else ev(901); ", "if (!(%s)) ev(902); ", "{ long y = %s; log_l(y); } ",
                                "x = 0; while (%s) { x++; if (x > 1) break; } log_i(x); ", "for (x = 0; %s; ev(903)) { if (x++ > 0) break; } log_i(x); ", "x += %s; log_i(x); ",
                                "switch (%s) { case 0: ev(904); break; case 1: ev(905); default: ev(906); } ", "log_i(q[!(%s)]); ", "x = sizeof(%s); ", "if (b == 1) return %s; ", "x = (%s) * 0 + 7; log_i(x); ",
                                "log_i(((%s) != 0) & 0); ", "(%s) == 3; ", "-(%s); ", "c = %s; log_i(c); ", "log_i((%s) ? 4 : 4); "]) % e
            body += "log_i(v); "
        u = ("enum N%d { E%da, E%db }; int f_%d(int a, int b) { int v; int x; char c; int p[3]; int q[2]; v = a; x = 0; c = 0; p[0] = 5; p[1] = 6; p[2] = 7; q[0] = 8; q[1] = 9; "
             "%s return 4; }" % (k, k, k, k, body))
        out.append(case("constants", u, "f_%d" % k, [(0, 0), (1, 1), (2, 0), (-1, 3), (7, 1), (256, 2)], "ii"))
    return out


def repeated(rnd, n):
    """the same expression or statement written twice or more runs as often as it is written; where C leaves the order of
    operands open, all orders have the same events and value"""
    out = []
    for _ in range(n):
        k = nid()
        pure = ["tick_@()", "tick_@()", "fp()", "same_@(3)", "same_@(a)", "*at_@()", "at_@()[0]", "q[same_@(1)]", "(char)tick_@()", "-tick_@()", "!tick_@()", "same_@(tick_@())", "sp->m", "two_@(a, 2)", "long_@()"]
        com = ["&", "|", "^", "+", "*", "==", "!="]
        anyop = com + ["-", "/", "%", "<", ">", "<=", ">=", "<<", ">>", "&&", "||"]

        def twice():
            x = rnd.random()
            if x < 0.25:
                e = rnd.choice(["step_@()", "step_@()", "sf()", "(step_@() + 0)"])
                return "(%s %s %s)" % (e, rnd.choice(com), e)
            e = rnd.choice(pure)
            if x < 0.6:
                op = rnd.choice(anyop)
                if op in ("/", "%") and e.startswith("!"):
                    op = "&"
                if op in ("<<", ">>"):
                    return "((%s & 7) %s (%s & 7))" % (e, op, e)
                if op in ("/", "%"):
                    return "((%s | 8) %s (%s | 8))" % (e, op, e)
                return "(%s %s %s)" % (e, op, e)
            if x < 0.7:
                return "(%s ? %s : %s)" % (rnd.choice(["a", e]), e, e)
            if x < 0.8:
                return "two_@(%s, %s)" % (e, e)
            if x < 0.9:
                op = rnd.choice(["+", "^", "|", "&"])
                return "(%s %s %s %s %s)" % (e, op, e, op, e)
            return "(%s %s (%s))" % (e, rnd.choice(com), e)
        body = ""
        for _ in range(rnd.randrange(2, 6)):
            if rnd.random() < 0.5:
                st = rnd.choice(["x = %s; log_i(x);", "log_l(%s);", "%s;", "if (%s) ev(900);", "q[%s & 1] = 3;", "x += %s; log_i(x);", "x = 0; while (%s) { x++; if (x > 1) break; } log_i(x);"]) % twice()
            else:
                st = rnd.choice(["step_@(); step_@();", "hit_@(); hit_@();", "x = step_@(); x = step_@(); log_i(x);", "if (tick_@()) hit_@(); else hit_@();", "if (a) { x = step_@(); } else { x = step_@(); } log_i(x);",
                                 "q[same_@(0)] = q[same_@(0)];", "q[same_@(1)] = same_@(1);", "x = x + step_@(); x = x + step_@(); log_i(x);", "while (step_@() < 4 && step_@() < 9) hit_@();", "for (hit_@(); step_@() < 9; hit_@()) hit_@();",
                                 "switch (tick_@()) { case 5: hit_@(); break; default: hit_@(); }", "switch (b) { case 0: hit_@(); case 1: hit_@(); case 2: hit_@(); }", "if (tick_@()) hit_@(); if (tick_@()) hit_@();",
                                 "if (a) if (a) hit_@(); else hit_@();", "{ hit_@(); } { hit_@(); }", "x = a; x++; x++; ++x; log_i(x);", "x = 5; x = 5; x = x; log_i(x);", "fp(); fp();", "x = tick_@() == 5; x = tick_@() == 5; log_i(x);",
                                 "hit_@(); return tick_@(); hit_@();", "for (x = 0; x < 3; x++) { tick_@(); tick_@(); }", "x = b; x = a - x; x = a - x; log_i(x);", "q[0] = 1; q[0] = step_@(); q[0] = q[0] + q[0]; log_i(q[0]);",
                                 "x = 1; x = x + x; x = x * x; x = x - x; log_i(x);", "log_i(step_@()); log_i(step_@());", "x = -step_@(); x = -step_@(); log_i(x);"])
            body += st + " log_i(n_@); "
        u = ("int n_@; int w_@[2]; struct s_@ { int m; }; int tick_@(void) { n_@++; ev(77); return 5; } int step_@(void) { n_@++; ev(n_@); return n_@; } int same_@(int x) { n_@++; ev(x); return x; } "
             "void hit_@(void) { n_@++; ev(78); } int *at_@(void) { n_@++; ev(79); return w_@; } int two_@(int x, int y) { ev(80); log_i(x + y); return x ^ y; } long long_@(void) { n_@ += 2; ev(81); return 1234567890123; } "
             "int f_@(int a, int b) { int x; int q[8]; int (*fp)(void) = tick_@; int (*sf)(void) = step_@; struct s_@ s; struct s_@ *sp; sp = &s; sp->m = 4; n_@ = 0; x = 0; w_@[0] = 6; q[0] = 2; q[1] = 3; "
             "%s return 4; }" % body).replace("@", str(k))
        out.append(case("repeated expressions and statements", u, "f_%d" % k, [(0, 0), (1, 1), (2, 0), (0, 2)], "ii"))
    return out


def bare_jumps(rnd, n):
    """loops without bodies, bodies that only jump, jumps to jumps: run with a counter that ends them, and present but never
    reached without one"""
    out = []
    for _ in range(n):
        k = nid()
        leaf = lambda: "ev(%d);" % rnd.randrange(1000)
        void = lambda b: b.replace("return;", "return 7;")
        run_ = " ".join(bare.tree(rnd, rnd.randrange(1, 6), fuel="n", leaf=leaf) + " log_i(a);" for _ in range(rnd.randrange(1, 4)))
        dead = " ".join(bare.tree(rnd, rnd.randrange(1, 5)) for _ in range(2))
        parts = ["if (b == 77) { %s }" % dead, "{ %s }" % run_]
        if rnd.random() < 0.4:
            parts[0] = "switch (b) { case 77: %s; case 78: for (;;) { continue; } case 0: ev(5); }" % bare.tree(rnd, 3)
        rnd.shuffle(parts)
        u = "int f_%d(int a, int b) { int n; n = %d; %s ev(500); return a; }" % (k, rnd.randrange(1, 12), void(" ".join(parts)))
        out.append(case("bare jumps", u, "f_%d" % k, [(0, 0), (1, 1), (2, 0), (3, 2), (5, 1), (-1, 0)], "ii"))
    return out


def early_exits(rnd, n):
    """returns from every depth, functions of every return type, void functions, and falling off the end"""
    out = []
    for _ in range(n):
        k = nid()
        t = rnd.choice(TYPES + "z")
        ret = lambda v: "return;" if t == "z" else "return %s;" % v
        d = rnd.randrange(1, 6)
        s, end = "", ""
        for j in range(d):
            form = rnd.randrange(4)
            s += ["if (a > %d) { " % j, "while (a > %d) { " % j, "for (; a > %d;) { " % j, "switch (a > %d) { case 1: " % j][form]
            s += "ev(%d); if (b == %d) %s " % (j, j, ret("a * 3 + %d" % j))
            if form in (1, 2):
                end = "a--; } " + end
            else:
                end = "} " + end
        tail = ret("b - a") if t != "z" or rnd.random() < 0.5 else ""
        u = "%s f_%d(int a, int b) { %s %s ev(500); %s }" % (NAME[t], k, s, end, tail)
        out.append(case("early exits", u, "f_%d" % k, [(a, b) for a in range(0, 7) for b in range(-1, 6)], "ii", t))
    return out


def check():
    ck = Check("C02", "one evaluation = one run of a generated function on concrete arguments whose whole event log equals the one C prescribes; "
               "non-trivial: the log has at least one event",
               assumptions=["gcc -O0 and clang -O0 agreeing, without undefined behaviour, give the event order C defines",
                            "generated programs combine event-producing operands only through sequenced operators"])
    e = Engine()
    rnd = rng("c02")
    cases = (random_functions(rnd, tier(700, 20000)) + logic_trees(rnd, tier(700, 8000)) + switches(rnd, tier(400, 5000)) +
             loops(rnd, tier(500, 8000)) + early_exits(rnd, tier(150, 2000)) + scattered_labels(rnd, tier(600, 8000)) + constants(rnd, tier(900, 12000)) + repeated(rnd, tier(600, 10000)) + bare_jumps(rnd, tier(500, 8000)))
    ck.count("functions", len(cases))
    e.evaluate(ck, cases, size=60)
    e.findings(ck)
    ck.finish(min_evaluations=5000)


if __name__ == "__main__":
    main(check)
