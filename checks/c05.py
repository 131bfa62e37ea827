"""C05: initializers give every byte of an object the value C prescribes."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "gen"))
from diff import *
from lang import *
from types_ import *

N = [0]


def nid():
    N[0] += 1
    return N[0]


CH = ["a", "Z", "0", " ", "~", "\\n", "\\t", "\\\\", "\\\"", "\\0", "\\x7f", "\\377", "\\x80", "\\'", "\\a", "%", "$", "\\1"]


def string(rnd, n):
    """text of a literal with n characters"""
    out, prev = [], ""
    for _ in range(n):
        c = rnd.choice(CH) if rnd.random() < 0.3 else rnd.choice("abcdefghijklmnopqrstuvwxyz")
        # keep numeric escapes from running into the next character
        if prev.startswith("\\") and (prev[1] in "x01234567") and (c[0].isdigit() or c[0] in "abcdefABCDEF"):
            c = "-"
        out.append(c)
        prev = c
    return '"%s"' % "".join(out)


def zeros(rnd, p):
    """a constant: zero in some spelling with probability p, else one whose lower or upper part is zero"""
    if rnd.random() < p:
        return rnd.choice(["0", "0", "0", "0L", "0U", "0UL", "'\\0'", "-0", "(char)256", "(int)4294967296", "0x0", "00LL", "~0xffffffffU", "+0", "(char)0"])
    b = rnd.choice([7, 8, 15, 16, 24, 31, 32, 32, 33, 40, 48, 56, 62, 63])
    v = rnd.choice([1, 1, 3, 5, 0xff, rnd.getrandbits(8) | 1]) << b
    v &= (1 << 64) - 1
    if v >> 63:
        return "%dUL" % v
    return rnd.choice(["%d", "%dL", "%dLL", "%dUL", "-%d", "0x%x"]) % v


class Init:
    """random initializers; const: only what is allowed for globals"""

    def __init__(self, rnd, g, const):
        self.rnd, self.g, self.const = rnd, g, const
        self.enums = []
        # mostly zeros, and values of which some bytes are zero
        self.sparse = rnd.choice([0, 0, 0, 0.5, 0.9])

    def number(self, t):
        rnd = self.rnd
        if self.sparse and rnd.random() < 0.9:
            return zeros(rnd, self.sparse)
        x = rnd.random()
        if x < 0.5:
            u = rnd.choice("iiulmqv") if rnd.random() < 0.5 else (t if t != "c" else "i")
            v = rnd.choice(bounds(u)) if rnd.random() < 0.6 else rnd.getrandbits(8 * SIZE[u])
            v = wrap(u, v)
            if v < 0:
                return "-%d%s" % (-v, SUFFIX[u]) if -v < 1 << (8 * SIZE[u] - 1) else "-%d%s" % (-v - 1, SUFFIX[u])
            return "%d%s" % (v, SUFFIX[u])
        if x < 0.6:
            return rnd.choice(["'a'", "'\\0'", "'\\n'", "'\\377'", "'9'", "-'a'", "~'z'"])
        if x < 0.68:
            return rnd.choice(["~5", "-(3)", "(7)", "+9", "~0U", "-1", "0x7fffffff", "017", "-0x80L", "~0L", "-1L"])
        if x < 0.76:
            e = self.g.fresh("K")
            self.g.defs.append("enum { %s = %d };" % (e, rnd.randrange(0, 100000)))
            return e
        if x < 0.84:
            u = rnd.choice(TYPES)
            return "(%s)%d" % (NAME[u], rnd.randrange(0, 70000))
        if x < 0.88:
            return "sizeof(%s)" % NAME[rnd.choice(TYPES)]
        if self.const:
            return str(rnd.randrange(0, 200))
        return rnd.choice(["a_", "b_", "-a_", "(int)b_", "a_ + 1", "b_ * 3", "a_ ? 5 : 6", "b_ && a_", "a_ == 3", "(char)b_", "ar_[1]", "*pa_", "a_ << 2", "idf(a_)", "ar_[a_ & 1] + 2", "!b_"])

    def scalar(self, t):
        rnd = self.rnd
        if isinstance(t, P):
            to = strip(t.to)
            d = t.decl("")
            if not self.const:
                if isinstance(to, S) and to.t == "c" and rnd.random() < 0.7:
                    return string(rnd, rnd.randrange(0, 9))
                if isinstance(to, S) and to.t == "i" and rnd.random() < 0.8:
                    return rnd.choice(["&a_", "ar_", "ar_ + 1", "&ar_[2]", "pa_"])
            return rnd.choice(["(%s)0", "(%s)12345L", "(%s)1"]) % d
        return self.number(t.t)

    def items(self, t):
        """the elements of a brace-free initialization of the whole of t"""
        rnd = self.rnd
        t = strip(t)
        if isinstance(t, (S, P)):
            return [self.scalar(t)]
        if isinstance(t, A):
            of = strip(t.of)
            if isinstance(of, S) and of.t == "c" and not isinstance(of, E) and rnd.random() < 0.6:
                return [self.string_for(t, 0)]
            subs = [t.of] * t.n
        else:
            subs = [m for _, m in t.members]
        out = []
        for s in subs:
            out += self.element(s)
        return out

    def string_for(self, t, brace=0.15):
        rnd = self.rnd
        n = rnd.choice([t.n, t.n - 1, max(0, t.n - 2), rnd.randrange(0, t.n), 0])
        s = string(rnd, n)
        return "{%s}" % s if rnd.random() < brace else s

    def element(self, t):
        s = strip(t)
        if isinstance(s, (S, P)):
            return [self.scalar(s)]
        if isinstance(s, A) and isinstance(strip(s.of), S) and strip(s.of).t == "c" and not isinstance(strip(s.of), E) and self.rnd.random() < 0.5:
            return [self.string_for(s)]
        if self.rnd.random() < 0.6:
            return [self.braced(t)]
        its = self.items(t)
        if its[0].startswith("{"):      # a brace would belong to the aggregate itself
            return ["{%s}" % ", ".join(its)]
        return its

    def braced(self, t):
        rnd = self.rnd
        s = strip(t)
        if isinstance(s, (S, P)):
            return "{%s}" % self.scalar(s)
        its = self.items(t)
        if rnd.random() < 0.5:
            its = its[:rnd.randrange(1, len(its) + 1)]
        sep = rnd.choice([", ", ","])
        return "{%s%s}" % (sep.join(its), rnd.choice(["", "", "", ","]))

    def top(self, t):
        s = strip(t)
        if isinstance(s, (S, P)):
            return self.scalar(s) if self.rnd.random() < 0.8 else "{%s}" % self.scalar(s)
        if isinstance(s, A) and isinstance(strip(s.of), S) and strip(s.of).t == "c" and not isinstance(strip(s.of), E) and self.rnd.random() < 0.6:
            return self.string_for(s)
        return self.braced(t)


def logs(rnd, t, n, host=False):
    """logs of all scalars of object n"""
    out = []
    s = strip(t)
    if isinstance(s, A) and isinstance(strip(s.of), S) and rnd.random() < 0.7:
        return ["%slog_b(%s%s, sizeof(%s));" % ("host_" if host else "", "" if host else "(char *)", n, n)]
    for p, l in paths(t, ""):
        e = n
        for st in p:
            e += "." + st[1] if st[0] == "." else "[%d]" % st[1]
        if l == "p":
            out.append("%s((unsigned long)%s);" % ("host_log_m" if host else "log_m", e))
        else:
            out.append("%slog_%s(%s);" % ("host_" if host else "", l, e))
    return out


def ptr_leaves(t, n):
    """(text, pointer type) of the pointer leaves"""
    s = strip(t)
    if isinstance(s, P):
        yield n, s
    elif isinstance(s, A):
        for i in range(s.n):
            for x in ptr_leaves(s.of, "%s[%d]" % (n, i)):
                yield x
    elif isinstance(s, St):
        for m, mt in s.members:
            for x in ptr_leaves(mt, "%s.%s" % (n, m)):
                yield x


def local_logs(rnd, t, n):
    """as logs, but addresses of objects are logged as what they point to"""
    if not any(True for _ in ptr_leaves(t, n)):
        return logs(rnd, t, n)
    out = []
    for p, l in paths(t, ""):
        e = n
        for st in p:
            e += "." + st[1] if st[0] == "." else "[%d]" % st[1]
        if l == "p":
            continue
        out.append("log_%s(%s);" % (l, e))
    for e, pt in ptr_leaves(t, n):
        to = strip(pt.to)
        small = "(unsigned long)%s < 100000UL" % e
        if isinstance(to, S) and to.t == "c" and not isinstance(to, E):
            out.append("if (%s) log_m((unsigned long)%s); else log_s(%s);" % (small, e, e))
        elif isinstance(to, S) and to.t == "i":
            out.append("if (%s) log_m((unsigned long)%s); else log_i(*%s);" % (small, e, e))
        else:
            out.append("log_m((unsigned long)%s);" % e)
    return out


def declare(rnd, objs):
    """declarations of [(name, type, init or None)], scalars sometimes several in one"""
    out = []
    for n, t, i in objs:
        out.append("%s%s;" % (t.decl(n), " = " + i if i is not None else ""))
    return " ".join(out)


def local(rnd):
    k = nid()
    g = Gen(rnd, k, max_size=120)
    I = Init(rnd, g, False)
    objs = []
    for j in range(rnd.randrange(1, 6)):
        t = g.type(rnd.choice([0, 1, 2, 3]))
        objs.append(("o%d" % j, t, I.top(t) if rnd.random() < 0.85 else None))
    # objects without initializer are neighbours: filled and checked
    fill, obs, trash = [], [], []
    for n, t, i in objs:
        if i is not None:
            obs += local_logs(rnd, t, n)
        trash.append("p_ = (char *)&%s; for (i_ = 0; i_ < sizeof(%s); i_++) p_[i_] = 90 + i_;" % (n, n))
    form = rnd.randrange(4)
    pre = "int ar_[3]; int *pa_; char *p_; int i_; int r_; long gu_; ar_[0] = 3; ar_[1] = a_; ar_[2] = -9; pa_ = &ar_[2]; gu_ = 77777777777; "
    nb_t = g.type(2)
    pre += nb_t.decl("nb_") + "; " + nb_t.decl("nc_") + "; p_ = (char *)&nb_; for (i_ = 0; i_ < sizeof(nb_); i_++) p_[i_] = i_ + 3; p_ = (char *)&nc_; for (i_ = 0; i_ < sizeof(nc_); i_++) p_[i_] = i_ * 5; "
    body = declare(rnd, objs) + " " + " ".join(obs)
    if form == 0:
        code = body
    elif form == 1:
        code = "for (r_ = 0; r_ < 3; r_++) { %s %s }" % (body, " ".join(trash))
    elif form == 2:
        code = "for (r_ = 0; r_ < 4; r_++) { if (r_ == a_) continue; %s %s { %s } }" % (body, " ".join(trash), body)
    else:
        code = "r_ = 0; while (r_ < 3) { r_++; { long w_[20]; for (i_ = 0; i_ < 20; i_++) w_[i_] = -1 - i_; log_l(w_[a_ & 7]); } { %s } dirty(); }" % body
    post = " log_b((char *)&nb_, sizeof(nb_)); log_b((char *)&nc_, sizeof(nc_)); log_l(gu_); log_i(a_); log_l(b_); log_i(ar_[1]);"
    u = "%s\nvoid f_%d(int a_, long b_) { %s%s%s }" % ("\n".join(g.defs), k, pre, code, post)
    h = ("extern void f_%d();\nstatic void h_%d(void) { static const int av[] = {0, 1, -5, 100000}; static const long bv[] = {-1, 0x123456789abcdefl, 0, 7};\n"
         "  for (int i = 0; i < 4; i++) { dirty(); sub(); u64 a[6] = {ax_i(av[i]), ax_l(bv[i])}; abi_call((void *)f_%d, a, 2); } }\n") % (k, k, k)
    return Case(u, "h_%d" % k, h, host_entry=True, stateful=False, tag="local initializers")


def global_(rnd):
    k = nid()
    g = Gen(rnd, k, max_size=200)
    I = Init(rnd, g, True)
    objs = []
    for j in range(rnd.randrange(1, 7)):
        t = g.type(rnd.choice([0, 1, 2, 3]))
        objs.append(("gi%d_%d" % (k, j), t, I.top(t) if rnd.random() < 0.8 else None))
    decls = []
    for n, t, i in objs:
        decls.append("%s%s;" % (t.decl(n), " = " + i if i is not None else ""))
    ulog, hlog = [], []
    for n, t, i in objs:
        ulog += logs(rnd, t, n)
        hlog += logs(rnd, t, n, host=True)
    defs = "\n".join(g.defs)
    u = "%s\n%s\nvoid f_%d(void) { %s }" % (defs, "\n".join(decls), k, " ".join(ulog))
    h = "%s\n%s\nextern void f_%d();\nstatic void h_%d(void) { static const u64 a[6]; sub(); %s sub(); abi_call((void *)f_%d, a, 0); sub(); %s }\n" % (
        defs, "\n".join("extern %s;" % t.decl(n) for n, t, _ in objs), k, k, " ".join(hlog), k,
        " ".join("host_log_m((unsigned long)&%s & %d);" % (n, t.align - 1) for n, t, _ in objs))
    return Case(u, "h_%d" % k, h, host_entry=True, stateful=False, tag="global initializers")


def large(rnd, where):
    """big arrays with few or many initializers"""
    k = nid()
    t = rnd.choice(TYPES)
    n = rnd.choice([16, 33, 64, 100, 255, 256, 257, 400, 1000])
    if where == "local" and n > 400:
        n = 300
    m = rnd.choice([1, 2, n - 1, n, n // 2])
    z = rnd.choice([None, None, 0.5, 0.9, 0.97])
    vals = ", ".join(str(rnd.randrange(-100, 127)) if z is None else zeros(rnd, z) for _ in range(m))
    shape = rnd.choice([0, 0, 1, 2, 3])
    if shape == 0:
        d = "%s x[%d] = {%s}" % (NAME[t], n, vals)
    elif shape == 1:
        d = "char x[%d] = %s" % (n, string(rnd, rnd.choice([0, 1, n, n - 1, n // 3])))
    elif shape == 2:
        d = "%s x[%d][3] = {%s}" % (NAME[t], n // 3 + 1, ", ".join("{%d, %d}" % (rnd.randrange(99), rnd.randrange(99)) for _ in range(rnd.randrange(1, n // 3 + 1))))
    else:
        d = "struct { char a; %s b; char c[3]; } x[%d] = {%s}" % (NAME[t], n // 8 + 2, ", ".join('%d, %d, "%s"' % (rnd.randrange(99), rnd.randrange(99), "ab"[:rnd.randrange(3)]) for _ in range(rnd.randrange(1, n // 8 + 2))))
    if shape == 3:
        obs = "for (i = 0; i < %d; i++) { log_c(%%s[i].a); log_%s(%%s[i].b); log_b(%%s[i].c, 3); }" % (n // 8 + 2, t)
    else:
        obs = "log_b((char *)%s, sizeof(%s));"
    if where == "local":
        o = obs.replace("%s", "x")
        u = "void t_%d(void) { int i; long y_; y_ = 5555555555; dirty(); %s; %s log_l(y_); }" % (k, d, o)
        h = "extern void t_%d();\nstatic void h_%d(void) { static const u64 a[6]; dirty(); abi_call((void *)t_%d, a, 0); }\n" % (k, k, k)
        return Case(u, "h_%d" % k, h, host_entry=True, tag="large local arrays")
    nm = "lg_%d" % k
    d = d.replace(" x[", " %s[" % nm)
    u = "int bf_%d = 17;\n%s;\nint af_%d = 19;\nvoid t_%d(void) { int i; i = 0; %s log_i(bf_%d); log_i(af_%d); }" % (k, d, k, k, obs.replace("%s", nm), k, k)
    return Case(u, "t_%d" % k, tag="large global arrays")


def several(rnd):
    """several declarators in one declaration, later ones using earlier ones"""
    k = nid()
    t = rnd.choice(TYPES)
    e = lambda: rnd.choice(["a", "b + 1", "a * 2", "-b", "7", "'c'", "a < b", "a ? b : 3", "idf(a)"])
    u = ("void f_%d(int a, int b) { int i; for (i = 0; i < 2; i++) { %s x = %s, y = x, *p = &x, z[3] = {%s, x}, *q = z + 1, **pp = &p; "
         "log_%s(x); log_%s(y); log_%s(*p); log_%s(z[0]); log_%s(z[1]); log_%s(z[2]); log_%s(*q); log_%s(**pp); x = 9; y = 8; z[2] = 7; log_%s(*p); "
         "if (i == 0) { %s x = y, w = %s; log_%s(x); log_%s(w); } { int c = ev(1), d = c + 1; log_i(c + d); } } }" % (
             (k, NAME[t], e(), e()) + (t,) * 9 + (NAME[t], e(), t, t)))
    h = "extern void f_%d();\nstatic void h_%d(void) { gridn((void *)f_%d, 'z', \"ii\", %dull, 4); }\n" % (k, k, k, rnd.getrandbits(60))
    return Case(u, "h_%d" % k, h, host_entry=True, stateful=False, tag="several declarators")


def check():
    ck = Check("C05", "one evaluation = one run of a function that enters the scope of initialized objects (on a stack filled with garbage), or one reading of "
               "initialized globals by compiled and by host code; all scalars of the objects and the bytes of their neighbours are compared",
               assumptions=["padding bytes are unspecified and not compared"])
    e = Engine()
    rnd = rng("c05")
    body = []
    for f, q, t in [(local, 500, 8000), (global_, 400, 6000), (lambda r: large(r, "local"), 40, 400), (lambda r: large(r, "global"), 60, 600), (several, 60, 600)]:
        body += [f(rnd) for _ in range(tier(q, t))]
    for c in body:
        if "idf(" in c.u:
            c.u = c.u.replace("idf(", "ev2(4, ")
    ck.count("functions", len(body))
    e.evaluate(ck, body, size=40)
    e.findings(ck)
    ck.finish(min_evaluations=1500)


if __name__ == "__main__":
    main(check)
