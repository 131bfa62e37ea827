"""Random statements whose every step is an event.

Only sequenced operators combine event-producing operands, so C fixes the order of all events.
Loops are bounded by counters of their own."""
from lang import *


class Stmts:
    def __init__(self, rnd, k, types="ii", max_stmts=40):
        self.rnd, self.k = rnd, k
        self.nev = 0
        self.nvar = 0
        self.decls = []
        self.left = max_stmts
        self.types = types
        self.params = ["abcdefgh"[i] for i in range(len(types))]
        self.loops = 0
        self.globals = []
        self.inloop = 0      # enclosing loops a continue may target
        self.breakable = 0

    def e(self):
        self.nev += 1
        return self.nev

    def var(self, t="i"):
        self.nvar += 1
        n = "n%d" % self.nvar
        self.decls.append((n, t))
        return n

    # ---- conditions
    def value(self):
        """a side-effect free integer operand"""
        r = self.rnd
        x = r.random()
        if x < 0.45:
            return r.choice(self.params)
        if x < 0.65 and self.decls:
            return r.choice(self.decls)[0]
        if x < 0.8:
            return "%d" % r.randrange(0, 4)
        return "(%s %s %d)" % (r.choice(self.params), r.choice(["&", "+", "-", "^", ">>"]), r.randrange(0, 4))

    def atom(self):
        """one event, with a value"""
        r = self.rnd
        x = r.random()
        if x < 0.5:
            return "ev2(%d, %s)" % (self.e(), self.value())
        if x < 0.6:
            return "evl(%d, %s)" % (self.e(), self.value())
        if x < 0.7:
            return "evc(%d, %s)" % (self.e(), self.value())
        return "(ev2(%d, %s) %s %s)" % (self.e(), self.value(), r.choice(REL), r.choice(["0", "1", "2", "3", r.choice(self.params)]))

    def cond(self, depth=2):
        r = self.rnd
        x = r.random()
        if depth <= 0 or x < 0.25:
            return self.atom() if r.random() < 0.6 else self.pure(1)
        if x < 0.5:
            return "(%s && %s)" % (self.cond(depth - 1), self.cond(depth - 1))
        if x < 0.75:
            return "(%s || %s)" % (self.cond(depth - 1), self.cond(depth - 1))
        if x < 0.85:
            return "!%s" % self.paren(self.cond(depth - 1))
        if x < 0.95:
            return "(%s ? %s : %s)" % (self.cond(depth - 1), self.cond(depth - 1), self.cond(depth - 1))
        return "(%s %s 0)" % (self.paren(self.cond(depth - 1)), r.choice(["==", "!=", ">"]))

    def paren(self, s):
        return s if s.startswith("(") else "(" + s + ")"

    def pure(self, depth):
        r = self.rnd
        if depth <= 0:
            return self.value()
        return "(%s %s %s)" % (self.value(), r.choice(REL + ["&", "-"]), self.value())

    # ---- statements
    def block(self, depth, n=None):
        r = self.rnd
        n = n if n is not None else r.randrange(0, 4)
        return "{ " + " ".join(self.stmt(depth) for _ in range(n)) + " }"

    def body(self, depth):
        """a statement in a position where braces are optional"""
        r = self.rnd
        x = r.random()
        if x < 0.12:
            return ";"
        if x < 0.6:
            return self.block(depth)
        return self.stmt(depth)

    def simple(self):
        r = self.rnd
        x = r.random()
        if x < 0.35:
            return "ev(%d);" % self.e()
        if x < 0.45:
            return "log_i(%s);" % self.value()
        if x < 0.55:
            return ";"
        if x < 0.7:
            v = self.var(r.choice("iiclu"))
            return "{ %s = %s; log_l(%s); }" % (v, self.cond(2), v)
        if x < 0.78:
            return "%s;" % self.cond(2)
        if x < 0.86:
            return "log_i(%s);" % self.cond(1)
        if x < 0.93:
            p = r.choice(self.params)
            return r.choice(["%s++;", "%s--;", "%s = %s + 1;" % ("%s", p), "%s ^= 1;", "%s += 2;"]) % p
        return "ev(%s ? %d : %d);" % (self.cond(1), self.e(), self.e())

    def stmt(self, depth):
        r = self.rnd
        self.left -= 1
        if depth <= 0 or self.left <= 0:
            return self.simple()
        x = r.random()
        if x < 0.22:
            return self.simple()
        if x < 0.30:
            return self.jump()
        if x < 0.36:
            return self.block(depth - 1)
        if x < 0.56:
            c = self.cond(2)
            a = self.body(depth - 1)
            if r.random() < 0.5:
                return "if (%s) %s" % (c, self.block(depth - 1) if r.random() < 0.5 else a)
            b = self.body(depth - 1)
            # a dangling else must not attach to an inner if: brace an if in the first branch sometimes only
            if not a.startswith("{") and r.random() < 0.5:
                a = "{ " + a + " }"
            return "if (%s) %s else %s" % (c, a, b)
        if x < 0.68:
            return self.whiles(depth)
        if x < 0.82:
            return self.fors(depth)
        return self.switch(depth)

    def jump(self):
        r = self.rnd
        ops = ["ret"]
        if self.breakable:
            ops += ["break"] * 3
        if self.inloop:
            ops += ["continue"] * 3
        o = r.choice(ops)
        s = {"ret": "return %s;" % (self.cond(1)), "break": "break;", "continue": "continue;"}[o]
        if r.random() < 0.8:
            return "if (%s) %s" % (self.cond(1), s)
        return s

    def loop_body(self, depth):
        self.inloop += 1
        self.breakable += 1
        s = self.body(depth - 1) if self.rnd.random() < 0.3 else self.block(depth - 1, self.rnd.randrange(1, 4))
        self.inloop -= 1
        self.breakable -= 1
        return s

    def whiles(self, depth):
        r = self.rnd
        v = self.var()
        b = r.randrange(1, 4)
        pre = "%s = 0; " % v
        c = "%s++ < %d" % (v, b)
        if r.random() < 0.6:
            c = r.choice(["(%s) && %s", "%s && (%s)"]) % ((self.cond(1), c) if r.random() < 2 else 0)
        return "{ %swhile (%s) %s log_i(%s); }" % (pre, c, self.loop_body(depth), v)

    def fors(self, depth):
        r = self.rnd
        b = r.randrange(1, 4)
        x = r.random()
        if x < 0.3:
            v = self.var()
            self.decls.pop()
            i, c, s = "int %s = 0;" % v, "%s < %d" % (v, b), "%s++" % v
            return "for (%s %s; %s) %s" % (i, c, s, self.loop_body(depth))
        v = self.var()
        i = "%s = ev2(%d, 0);" % (v, self.e()) if r.random() < 0.5 else "%s = 0;" % v
        c = "ev2(%d, %s) < %d" % (self.e(), v, b) if r.random() < 0.5 else "%s < %d" % (v, b)
        s = r.choice(["%s++", "++%s", "%s += 1", "%s = %s + 1" % ("%s", v)]) % v
        if r.random() < 0.4:
            s = "%s = ev2(%d, %s + 1)" % (v, self.e(), v)
        if x < 0.5:
            i = ";"
            pre = "%s = 0; " % v
        else:
            pre = ""
        if x > 0.85:
            # no condition: leave by break
            return "{ %sfor (%s ; %s) { if (%s >= %d) break; %s } log_i(%s); }" % (pre, i, s, v, b, self.loop_body(depth), v)
        if 0.7 < x <= 0.85:
            # no step: the condition counts
            return "{ %s = 0; for (; %s++ < %d;) %s log_i(%s); }" % (v, v, b, self.loop_body(depth), v)
        return "{ %sfor (%s %s; %s) %s log_i(%s); }" % (pre, i, c, s, self.loop_body(depth), v)

    def switch(self, depth):
        r = self.rnd
        n = r.randrange(0, 6)
        x = r.random()
        if x < 0.7:
            labels = r.sample(range(0, 7), n)
            lt = ["%d" % v for v in labels]
        elif x < 0.85:
            lt = r.sample(["'a'", "'b'", "0", "1", "2", "0x3", "2147483647", "255", "256", "128"], n)
        else:
            lt = r.sample(["0", "1", "2", "4294967296L", "4294967297", "2147483648", "3"], n)
        d = r.randrange(0, n + 1) if r.random() < 0.6 else None
        v = self.atom() if r.random() < 0.6 else r.choice(self.params)
        if x >= 0.85:
            v = "evl(%d, %s)" % (self.e(), self.value())
        elif r.random() < 0.3:
            v = "(%s & 3)" % v
        items = ["case %s:" % t for t in lt]
        if d is not None:
            items.insert(d, "default:")
        self.breakable += 1
        out = []
        if r.random() < 0.1:
            out.append("ev(%d);" % self.e())   # never reached
        for it in items:
            if r.random() < 0.2:
                out.append(it + " " + self.block(depth - 1))
            elif r.random() < 0.15:
                out.append(it)                  # shares the next one's statement
                continue
            else:
                out.append(it + " " + self.simple())
                for _ in range(r.randrange(0, 2)):
                    out.append(self.stmt(depth - 1))
            if r.random() < 0.55:
                out.append("break;")
        self.breakable -= 1
        if out and out[-1].endswith(":"):
            out.append(";")
        return "switch (%s) { %s }" % (v, " ".join(out))

    def function(self, depth=4):
        body = " ".join(self.stmt(depth) for _ in range(self.rnd.randrange(2, 7)))
        decls = "".join("%s %s; " % (NAME[t], n) for n, t in self.decls)
        inits = "".join("%s = 0; " % n for n, t in self.decls)
        fn = "f_%d" % self.k
        ps = ", ".join("%s %s" % (NAME[t], p) for t, p in zip(self.types, self.params))
        return "%sint %s(%s) { %s%s%s return 99; }" % ("".join(self.globals), fn, ps, decls, inits, body), fn
