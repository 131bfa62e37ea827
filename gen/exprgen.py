"""Random well-typed expressions over many kinds of operands, free of unsequenced side effects.

`budget` bounds how many temporaries the expression keeps alive, so that a program is one a user may
expect the compiler to accept: it allocates registers without spilling and documents (by a diagnostic)
that larger expressions are refused."""
from lang import *


class Program:
    def __init__(self, rnd, k, regs=6, calls=True, side_effects=True, heavy=False):
        self.rnd, self.k, self.regs = rnd, k, regs
        self.calls, self.side_effects, self.heavy = calls, side_effects, heavy
        self.globals, self.locals, self.setup, self.helpers, self.after = [], [], [], [], []
        self.vars = []      # (text, type): read-only operands
        self.n = 0

    def fresh(self, p):
        self.n += 1
        return "%s%d" % (p, self.n)

    def operands(self, types):
        """storage of every kind, filled from the parameters"""
        rnd, k = self.rnd, self.k
        P = [("abcdefgh"[i], t) for i, t in enumerate(types)]
        self.vars = list(P)
        for _ in range(rnd.randrange(2, 7)):
            src, st = rnd.choice(P)
            t = rnd.choice(TYPES)
            T = NAME[t]
            kind = rnd.randrange(7)
            if kind == 0:
                v = self.fresh("l")
                self.locals.append("%s %s;" % (T, v))
                self.setup.append("%s = %s;" % (v, src))
                self.vars.append((v, t))
            elif kind == 1:
                v = self.fresh("g%d_" % k)
                self.globals.append("%s %s;" % (T, v))
                self.setup.append("%s = %s;" % (v, src))
                self.vars.append((v, t))
            elif kind == 2:
                v = self.fresh("y")
                n = rnd.randrange(1, 6)
                self.locals.append("%s %s[%d];" % (T, v, n))
                for i in range(n):
                    self.setup.append("%s[%d] = %s;" % (v, i, rnd.choice(P)[0]))
                for i in range(n):
                    self.vars.append(("%s[%d]" % (v, i), t))
                idx = self.fresh("i")
                it = rnd.choice("ciul")
                self.locals.append("%s %s;" % (NAME[it], idx))
                self.setup.append("%s = %d;" % (idx, rnd.randrange(n)))
                self.vars.append(("%s[%s]" % (v, idx), t))
            elif kind == 3:
                s, v = self.fresh("s%d_" % k), self.fresh("o")
                m = [(self.fresh("m"), rnd.choice(TYPES)) for _ in range(rnd.randrange(1, 5))]
                self.globals.append("struct %s { %s };" % (s, " ".join("%s %s;" % (NAME[mt], mn) for mn, mt in m)))
                self.locals.append("struct %s %s; struct %s *p%s;" % (s, v, s, v))
                self.setup.append("p%s = &%s;" % (v, v))
                for mn, mt in m:
                    self.setup.append("%s.%s = %s;" % (v, mn, rnd.choice(P)[0]))
                    self.vars.append((("%s.%s" if rnd.random() < 0.5 else "p%s->%s") % (v, mn), mt))
            elif kind == 4:
                v, p = self.fresh("l"), self.fresh("p")
                self.locals.append("%s %s; %s *%s;" % (T, v, T, p))
                self.setup.append("%s = %s; %s = &%s;" % (v, src, p, v))
                self.vars.append(("*%s" % p, t))
                if rnd.random() < 0.3:
                    self.locals.append("%s **p%s;" % (T, p))
                    self.setup.append("p%s = &%s;" % (p, p))
                    self.vars.append(("**p%s" % p, t))
            elif kind == 5:
                v = self.fresh("ga%d_" % k)
                n = rnd.randrange(2, 5)
                self.globals.append("%s %s[%d];" % (T, v, n))
                for i in range(n):
                    self.setup.append("%s[%d] = %s;" % (v, i, rnd.choice(P)[0]))
                    self.vars.append(("%s[%d]" % (v, i), t))
            else:
                self.vars.append((src, st))

    def helper(self):
        rnd = self.rnd
        n = rnd.randrange(1, 9)
        ts = [rnd.choice(TYPES) for _ in range(n)]
        r = rnd.choice(TYPES)
        name = self.fresh("h%d_" % self.k)
        ps = ["x%d" % i for i in range(n)]
        body = ps[0]
        for p in ps[1:]:
            body = "(%s %s %s)" % (body, rnd.choice(["^", "|", "&", "^"]), p)
        self.helpers.append("%s %s(%s) { return %s; }" % (
            NAME[r], name, ", ".join("%s %s" % (NAME[t], p) for t, p in zip(ts, ps)), body))
        return name, r, ts

    def leaf(self, budget):
        rnd = self.rnd
        x = rnd.random()
        if x < 0.2:
            t = rnd.choice("iulmqv")
            v = rnd.choice(bounds(t)) if rnd.random() < 0.4 else rnd.randrange(0, 100)
            return literal(t, v), t
        if x < 0.25:
            ch = rnd.choice("azAZ09 +~!")
            return "'%s'" % ch, "i"
        cands = [v for v in self.vars if budget >= 3 or not any(c in v[0] for c in "[*>.")]
        return rnd.choice(cands)

    def expr(self, depth, budget):
        """-> (text, type); the text is a primary expression or parenthesised"""
        rnd = self.rnd
        if depth <= 0 or budget <= 2:
            return self.leaf(budget)
        x = rnd.random()
        if x < 0.50:
            op = rnd.choice(ARITH + BIT + BIT + SHIFT + REL + ["+", "-", "^"])
            l, lt = self.expr(depth - 1, budget)
            if op in "/%":
                r, rt = self.expr(depth - 2, budget - 2)
                r = "(%s | 1)" % r if rnd.random() < 0.6 else "%d" % rnd.choice([1, 2, 3, 5, 7, 16, 100, 255, 65537])
                rt = common(rt, "i") if "|" in r else "i"
            elif op in SHIFT:
                r, rt = self.expr(depth - 2, budget - 2)
                m = 8 * SIZE[promote(lt)] - 1
                if rnd.random() < 0.5:
                    r, rt = "(%s & %d)" % (r, m), common(rt, "i")
                else:
                    r, rt = "%d" % rnd.randrange(m + 1), "i"
                if op == "<<" and SIGNED[promote(lt)]:
                    l, lt = "(%s)%s" % (NAME[UNSIGNED_OF[promote(lt)]], l), UNSIGNED_OF[promote(lt)]
            else:
                r, rt = self.expr(depth - 1, budget - 1)
                if op in ("+", "-", "*") and SIGNED[common(lt, rt)] and rnd.random() < 0.7:
                    # mostly wrap instead of overflowing
                    t = rnd.choice("umv")
                    l, lt = "(%s)%s" % (NAME[t], l), t
            return "(%s %s %s)" % (l, op, r), result(op, lt, rt)
        if x < 0.60:
            op = rnd.choice(UNARY)
            a, t = self.expr(depth - 1, budget)
            if op == "-" and SIGNED[promote(t)]:
                t = UNSIGNED_OF[promote(t)]
                a = "(%s)%s" % (NAME[t], a)
            return "(%s%s)" % (op, a if not a.startswith(("-", "+")) else "(" + a + ")"), "i" if op == "!" else promote(t)
        if x < 0.72:
            t = rnd.choice(TYPES)
            a, _ = self.expr(depth - 1, budget)
            return "((%s)%s)" % (NAME[t], a), t
        if x < 0.79:
            op = rnd.choice(LOGIC)
            a, _ = self.expr(depth - 1, budget - 1)
            b, _ = self.expr(depth - 1, budget - 1)
            return "(%s %s %s)" % (a, op, b), "i"
        if x < 0.86:
            a, _ = self.expr(depth - 1, budget - 1)
            b, bt = self.expr(depth - 1, budget - 1)
            c, ct = self.expr(depth - 1, budget - 2)
            return "(%s ? %s : %s)" % (a, b, c), common(bt, ct)
        if x < 0.93 and self.calls and self.regs - budget <= 2 and budget >= 4:
            name, r, ts = self.helper()
            args = []
            for _ in ts:
                a, _t = self.expr(rnd.choice([0, 0, 1, 2]) if depth > 1 else 0, 4)
                args.append(a)
            return "%s(%s)" % (name, ", ".join(args)), r
        if self.side_effects and budget >= 4:
            t = rnd.choice(TYPES)
            w = self.fresh("w")
            self.locals.append("%s %s;" % (NAME[t], w))
            self.setup.append("%s = %s;" % (w, rnd.choice(self.vars[:4])[0]))
            self.after.append((w, t))
            y = rnd.random()
            if y < 0.4:
                return rnd.choice(["(%s++)", "(++%s)", "(%s--)", "(--%s)"]) % w, t
            a, _t = self.expr(depth - 1, budget - 2)
            if y < 0.7:
                return "(%s = %s)" % (w, a), t
            op = rnd.choice(["+", "-", "&", "|", "^"])
            return "(%s %s= %s)" % (w, op, a), t
        return self.leaf(budget)

    def function(self, depth):
        rnd = self.rnd
        types = "".join(rnd.choice(TYPES) for _ in range(rnd.randrange(1, 7)))
        self.operands(types)
        e, t = self.expr(depth, self.regs)
        r = t if rnd.random() < 0.7 else rnd.choice(TYPES)
        k = self.k
        fn = "f_%d" % k
        log = "".join("log_%s(%s); " % (wt, w) for w, wt in self.after)
        body = "%s %s" % (" ".join(self.locals), " ".join(self.setup))
        if self.after or rnd.random() < 0.3:
            body += " %s r_; r_ = %s; %sreturn r_;" % (NAME[r], e, log)
        else:
            body += " return %s;" % e
        u = "%s\n%s\n%s %s(%s) { %s }" % ("\n".join(self.globals), "\n".join(self.helpers), NAME[r], fn,
                                          ", ".join("%s %s" % (NAME[t_], "abcdefgh"[i]) for i, t_ in enumerate(types)), body)
        return u.strip(), fn, r, types
