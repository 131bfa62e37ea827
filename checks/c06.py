"""C06: values in flight survive register pressure, calls and branches."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "gen"))
from diff import *
from lang import *
import exprgen

N = [0]
LIMIT, CALL_LIMIT = 6, 4    # simultaneous values every user may expect to be held; across a call


def nid():
    N[0] += 1
    return N[0]


class Env:
    """operands of all kinds, filled from the parameters; every function also logs what its expression modified"""

    def __init__(self, rnd, k):
        self.rnd, self.k = rnd, k
        self.types = "".join(rnd.choice(TYPES) for _ in range(5)) + "v"
        self.names = "abcdef"
        self.pre = ["unsigned long %s; %s = %s;" % (v, v, rnd.choice(self.names)) for v in ("w0", "w1")]
        self.pre += ["int idx; idx = a & 3;", "long arr[4]; arr[0] = b; arr[1] = c; arr[2] = d; arr[3] = 7;", "char ch[4]; ch[0] = e; ch[1] = 1; ch[2] = -1; ch[3] = f;",
                     "struct st_%d s; struct st_%d *p; p = &s; s.x = a; s.y = b; s.z = c;" % (k, k),
                     "int (*fp)(int id, int r); fp = ev2;"]
        self.glob = "struct st_%d { char x; long y; int z; }; unsigned int g_%d; long long h_%d;\n" % (k, k, k)
        self.pre.append("g_%d = d; h_%d = e;" % (k, k))
        self.glob += "long six_%d(long p1, long p2, int p3, char p4, unsigned int p5, long long p6) { return p1 ^ (p2 << 1 & 14) ^ p3 ^ p4 ^ p5 ^ p6; }\n" % k
        self.glob += "long nine_%d(long p1, int p2, long p3, long p4, char p5, long p6, long p7, int p8, unsigned long p9) { return p1 ^ p2 ^ p3 ^ p4 ^ p5 ^ p6 ^ p7 ^ (p8 & 15) ^ p9; }\n" % k
        self.glob += "struct tb_%d { char x; long (*m)(long p1, long p2, int p3, char p4, unsigned int p5, long long p6); };\n" % k
        self.pre.append("long (*f6)(long p1, long p2, int p3, char p4, unsigned int p5, long long p6); f6 = six_%d; long (*t6[2])(long p1, long p2, int p3, char p4, unsigned int p5, long long p6); t6[0] = six_%d; t6[1] = six_%d; struct tb_%d m6; m6.m = &six_%d;" % (k, k, k, k, k))
        self.pre.append("long (*f9)(long p1, int p2, long p3, long p4, char p5, long p6, long p7, int p8, unsigned long p9); f9 = nine_%d;" % k)
        self.ids = 0

    def leaf(self):
        """an operand that takes one register"""
        rnd, k = self.rnd, self.k
        x = rnd.random()
        if x < 0.6:
            return rnd.choice(self.names)
        if x < 0.72:
            t = rnd.choice("iulmqv")
            return literal(t, rnd.choice(bounds(t)))
        return rnd.choice(["g_%d" % k, "h_%d" % k, "idx", "s.x", "s.y", "p->z", "*arr", "*ch"])

    def ev(self):
        self.ids += 1
        return self.ids

    def inner(self, kind):
        """-> (expression, registers it needs beyond what is pending, contains a call)"""
        rnd, k, L = self.rnd, self.k, self.leaf
        if kind == "div":
            return "(%s %s (%s | 1))" % (L(), rnd.choice("/%"), L()), 3, 0
        if kind == "divconst":
            return "(%s %s %d)" % (L(), rnd.choice("/%"), rnd.choice([1, 2, 3, 7, 10, 16, 255, 65537])), 2, 0
        if kind == "shift":
            return "((unsigned %s)%s %s (%s & 31))" % (rnd.choice(["int", "long"]), L(), rnd.choice(["<<", ">>"]), L()), 3, 0
        if kind == "shiftconst":
            return "((unsigned %s)%s %s %d)" % (rnd.choice(["int", "long"]), L(), rnd.choice(["<<", ">>"]), rnd.randrange(32)), 2, 0
        if kind == "cond":
            return "(%s ? %s : %s)" % (L(), L(), L()), 2, 0
        if kind == "condtree":
            return "(%s > %s ? %s ^ %s : %s & %s)" % (L(), L(), L(), L(), L(), L()), 3, 0
        if kind == "and":
            return "(%s && %s)" % (L(), L()), 2, 0
        if kind == "or":
            return "(%s || %s != %s)" % (L(), L(), L()), 3, 0
        if kind == "not":
            return rnd.choice(["(!%s)", "(~%s)", "(-(unsigned long)%s)", "((char)%s)", "((unsigned int)%s)"]) % L(), 1, 0
        if kind == "cmp":
            return "(%s %s %s)" % (L(), rnd.choice(REL), L()), 2, 0
        if kind == "mul":
            return "((unsigned long)%s * %s)" % (L(), L()), 2, 0
        if kind == "assign":
            return "(w%d = %s)" % (rnd.randrange(2), L()), 3, 0
        if kind == "compound":
            return "(w%d %s= %s)" % (rnd.randrange(2), rnd.choice(["+", "-", "^", "&", "|", "*"]), L()), 3, 0
        if kind == "incdec":
            w = "w%d" % rnd.randrange(2)
            return rnd.choice(["(%s++)", "(%s--)", "(++%s)", "(--%s)"]) % w, 3, 0
        if kind == "index":
            return rnd.choice(["arr[%s & 3]", "ch[%s & 3]", "*(arr + (%s & 1))", "arr[3 - (%s & 3)]"]) % L(), 4, 0
        if kind == "call":
            n = rnd.randrange(3)
            if n == 0:
                return "ev2(%d, %s)" % (self.ev(), L()), 3, 1
            if n == 1:
                return "evl(%d, %s)" % (self.ev(), L()), 3, 1
            return "ev(%d)" % self.ev(), 2, 1
        if kind == "call6":
            return "six_%d(%s)" % (k, ", ".join(L() for _ in range(6))), 3, 1
        if kind == "call9":
            return "nine_%d(%s)" % (k, ", ".join(L() for _ in range(9))), 3, 1
        if kind == "fpcall":
            return "%s(%d, %s)" % (rnd.choice(["fp", "(*fp)"]), self.ev(), L()), 3, 1
        if kind == "fpcall6":
            return "%s(%s)" % (rnd.choice(["f6", "(*f6)", "t6[1]", "t6[%s & 1]" % L(), "m6.m", "(*m6.m)"]), ", ".join(L() for _ in range(6))), 3, 1
        if kind == "fpcall9":
            return "%s(%s)" % (rnd.choice(["f9", "(*f9)"]), ", ".join(L() for _ in range(9))), 3, 1
        if kind == "argdiv":
            return "ev2(%d, (%s / (%s | 1)))" % (self.ev(), L(), L()), 4, 1
        if kind == "condcall":
            return "(%s ? ev2(%d, %s) : %s)" % (L(), self.ev(), L(), L()), 3, 1
        if kind == "andcall":
            return "(%s %s ev2(%d, %s))" % (L(), rnd.choice(["&&", "||"]), self.ev(), L()), 3, 1
        return L(), 1, 0


INNER = ["div", "divconst", "shift", "shiftconst", "cond", "condtree", "and", "or", "not", "cmp", "mul", "assign", "compound",
         "incdec", "index", "call", "call6", "call9", "fpcall", "fpcall6", "fpcall9", "argdiv", "condcall", "andcall"]
OPS = ["^", "^", "|", "&", "==", "<", "+u", "-u", "*u", ">="]


def binop(rnd, l, r):
    op = rnd.choice(OPS)
    if op.endswith("u"):    # wraps
        return "(%s %s (unsigned long)%s)" % (l, op[0], r)
    return "(%s %s %s)" % (l, op, r)


def finish(rnd, env, e, reject, tag, count):
    k = env.k
    r = rnd.choice("lvuiq")
    use = rnd.randrange(4)
    body = " ".join(env.pre)
    tail = "log_v(w0); log_v(w1); log_b(ch, 4);"
    if use == 0:
        body += " %s r_; r_ = %s; %s return r_;" % (NAME[r], e, tail)
    elif use == 1:
        body += " if (%s) ev(90); else ev(91); %s return 3;" % (e, tail)
    elif use == 2:
        body += " return %s;" % e
    else:
        body += " int n_; for (n_ = 0; n_ < 2; n_++) { log_v(%s); a = a ^ n_; } %s return n_;" % (e, tail)
    u = "%s%s f_%d(%s) { %s }" % (env.glob, NAME[r], k, ", ".join("%s %s" % (NAME[t], n) for t, n in zip(env.types, env.names)), body)
    h = "extern void f_%d();\nstatic void h_%d(void) { gridn((void *)f_%d, '%s', \"%s\", %dull, %d); }\n" % (k, k, k, r, env.types, rnd.getrandbits(60), count)
    return Case(u, "h_%d" % k, h, host_entry=True, stateful=False, may_reject=reject, tag=tag)


def spine(rnd, depth, kind, count):
    """`depth` values pending while the inner expression is computed"""
    k = nid()
    env = Env(rnd, k)
    e, need, call = env.inner(kind)
    if rnd.random() < 0.4:      # something else done with it first, without more registers pending
        e = binop(rnd, e, env.leaf())
    for j in range(depth):
        if rnd.random() < 0.25:
            e = binop(rnd, e, env.leaf())
        e = binop(rnd, env.leaf(), e)
    reject = depth + need > LIMIT or (call and depth > CALL_LIMIT - 1)
    return finish(rnd, env, e, reject, "spine", count)


def two_calls(rnd, count):
    """calls on both sides, results kept over each other"""
    k = nid()
    env = Env(rnd, k)

    def tree(d, pend):
        if d == 0 or pend >= 3:
            return env.inner(rnd.choice(["call", "call6", "call9", "fpcall", "condcall", "andcall", "argdiv", "", "div", "shift"]))[0] if pend < 3 else env.leaf()
        return binop(rnd, tree(d - 1, pend), tree(d - 1, pend + 1))
    # order of the two sides is not defined in C: the calls here log nothing that depends on it
    e = tree(rnd.randrange(1, 4), 0)
    for f, g in (("ev2(", "pure2_%d(" % k), ("evl(", "purel_%d(" % k), ("ev(", "pure1_%d(" % k)):
        e = e.replace(f, g)
    env.glob += "int pure2_%d(int i, int r) { return r ^ i; } long purel_%d(int i, long r) { return r + 0UL + i; } int pure1_%d(int i) { return i; }\n" % (k, k, k)
    env.pre = [p.replace("fp = ev2", "fp = pure2_%d" % k) for p in env.pre]
    return finish(rnd, env, e, True, "calls on both sides", count)


def args(rnd, count):
    """computed arguments: each must survive the computation of the following ones"""
    k = nid()
    env = Env(rnd, k)
    n = rnd.choice([2, 3, 4, 5, 6, 7, 8, 10])
    ts = "".join(rnd.choice(TYPES) for _ in range(n))
    env.glob += "long t_%d(%s) { %s return p0; }\n" % (k, ", ".join("%s p%d" % (NAME[t], i) for i, t in enumerate(ts)), " ".join("log_%s(p%d);" % (t, i) for i, t in enumerate(ts)))
    kinds = [x for x in INNER if x not in ("assign", "compound", "incdec") and "call" not in x and x != "argdiv"]
    av = []
    one_call = rnd.randrange(n)
    for i in range(n):
        if i == one_call and rnd.random() < 0.5:
            av.append(env.inner(rnd.choice(["call", "call6", "call9", "fpcall", "condcall"]))[0])
        else:
            e = env.inner(rnd.choice(kinds))[0]
            if rnd.random() < 0.3:
                e = binop(rnd, env.leaf(), e)
            av.append(e)
    e = "t_%d(%s)" % (k, ", ".join(av))
    depth = rnd.choice([0, 0, 1, 2, 3])
    for _ in range(depth):
        e = binop(rnd, env.leaf(), e)
    return finish(rnd, env, e, depth >= 2, "computed arguments", count)


def lvalues(rnd, count):
    """the address of an assigned object survives the computation of the value, and the other way round"""
    k = nid()
    env = Env(rnd, k)
    kind = rnd.choice([x for x in INNER if x not in ("assign", "compound", "incdec")])
    e, need, call = env.inner(kind)
    for _ in range(rnd.randrange(0, 3)):
        e = binop(rnd, env.leaf(), e)
    lv = rnd.choice(["arr[idx]", "*(arr + idx)", "ch[3 - idx]", "p->y", "s.z", "g_%d" % k, "h_%d" % k, "*p_", "arr[(a ^ b) & 3]", "*q_[idx & 1]"])
    env.pre.append("unsigned int *p_; p_ = &g_%d; long *q_[2]; q_[0] = arr; q_[1] = &arr[2];" % k)
    op = rnd.choice(["=", "=", "=", "^=", "|=", "&="])
    e = "(%s %s %s)" % (lv, op, e)
    env.pre.append("")
    c = finish(rnd, env, e, True, "assignments", count)
    c.u = c.u.replace("return r_;", "log_b((char *)arr, 32); log_u(g_%d); log_q(h_%d); log_l(s.y); log_i(s.z); return r_;" % (k, k))
    return c


def heavy(rnd, count):
    k = nid()
    p = exprgen.Program(rnd, k, regs=rnd.choice([7, 8, 9]), heavy=True)
    u, fn, r, types = p.function(depth=rnd.randrange(3, 7))
    h = "extern void %s();\nstatic void h_%s(void) { gridn((void *)%s, '%s', \"%s\", %dull, %d); }\n" % (fn, fn, fn, r, types, rnd.getrandbits(60), count)
    return Case(u, "h_" + fn, h, host_entry=True, stateful=False, may_reject=True, tag="random heavy expressions")


def check():
    ck = Check("C06", "one evaluation = one call of a compiled function whose expression keeps several values alive over the construct "
               "under test, all results and modified objects compared with the reference; or one clean refusal of an expression beyond "
               "the bound every user may rely on",
               assumptions=["bound: %d simultaneous values, %d across a call, must never be refused" % (LIMIT, CALL_LIMIT)])
    e = Engine()
    rnd = rng("c06")
    cases = []
    cnt = tier(10, 16)
    for depth in range(0, 9):
        for kind in INNER + [""]:
            for _ in range(tier(4 if depth < 6 else 2, 40)):
                cases.append(spine(rnd, depth, kind, cnt))
    for f, q, t in [(two_calls, 200, 4000), (args, 250, 4000), (lvalues, 200, 4000), (heavy, 250, 5000)]:
        cases += [f(rnd, cnt) for _ in range(tier(q, t))]
    rnd.shuffle(cases)
    must_, may = [c for c in cases if not c.may_reject], [c for c in cases if c.may_reject]
    ck.count("functions", len(cases))
    e.evaluate(ck, must_, size=60)
    # refusals are found by splitting files: smaller ones for the functions that may be refused
    e.evaluate(ck, may, size=8)
    ck.finish(min_evaluations=4000)


if __name__ == "__main__":
    main(check)
