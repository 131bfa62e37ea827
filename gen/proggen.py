"""Random whole programs: typedefs, enums, structs, globals, functions calling each other, function
pointers, recursion, pointers, arrays, strings, all statements.  Every expression has one side effect at
most unless C sequences them, arithmetic is kept within range, every loop and recursion is bounded, so
the behaviour of (nearly) every program is fixed by C."""
from lang import *

LOG = {"c": "log_c", "i": "log_i", "u": "log_u", "l": "log_l", "m": "log_m", "q": "log_q", "v": "log_v"}


class V:
    """an object: kind s(calar) a(rray) m(atrix) S(truct) p(ointer to scalar) P(ointer to struct) A(rray of struct)"""
    __slots__ = ("name", "kind", "t", "n", "n2", "depth", "ro", "st", "region")

    def __init__(self, name, kind, t, n=0, n2=0, depth=0, ro=False, st=None, region=0):
        self.name, self.kind, self.t, self.n, self.n2 = name, kind, t, n, n2
        self.depth, self.ro, self.st, self.region = depth, ro, st, region


class Fn:
    def __init__(self, name, ret, params, pure):
        self.name, self.ret, self.params, self.pure = name, ret, params, pure


class Struct:
    def __init__(self, tag, members, self_ptr):
        self.tag, self.members, self.self_ptr = tag, members, self_ptr  # members: (name, kind, t, n, st)


class Prog:
    def __init__(self, rnd, k="", size=6, stmts=14):
        self.r, self.k = rnd, str(k)
        self.nid = 0
        self.size, self.nstmts = size, stmts
        self.structs, self.enums, self.typedefs = [], [], {}
        self.globals, self.fns = [], []
        self.out = []
        self.fptrs = []

    def fresh(self, p):
        self.nid += 1
        return "%s%s_%d" % (p, self.k, self.nid)

    # ------------------------------------------------------------ types
    def tname(self, t):
        r = self.r
        if t in self.typedefs and r.random() < 0.35:
            return r.choice(self.typedefs[t])
        if r.random() < 0.15:
            alt = {"l": ["long int", "int long"], "m": ["long unsigned int", "unsigned long int"], "u": ["unsigned", "int unsigned"],
                   "q": ["long long int", "long int long"], "v": ["unsigned long long int", "long unsigned long"]}.get(t)
            if alt:
                return r.choice(alt)
        return NAME[t]

    def scalar(self):
        return self.r.choice("cciiiiiuullmqv")

    def globals_section(self):
        r, o = self.r, self.out
        for _ in range(r.randrange(0, 3)):
            tag = self.fresh("E")
            names = [self.fresh("K") for _ in range(r.randrange(1, 5))]
            parts = [n if r.random() < 0.6 else "%s = %s%d" % (n, "", r.randrange(0, 200)) for n in names]
            # (no objects of the type: whether it is signed is the implementation's choice)
            o.append("enum %s { %s };" % (tag, ", ".join(parts)))
            self.enums.append((tag, names))
        for _ in range(r.randrange(0, 3)):
            t = self.scalar()
            n = self.fresh("T")
            o.append("typedef %s %s;" % (self.tname(t), n))
            self.typedefs.setdefault(t, []).append(n)
        for _ in range(r.randrange(1, 4)):
            tag = self.fresh("S")
            ms, txt = [], []
            for _ in range(r.randrange(1, 6)):
                m = r.choice("abcdefgh") + str(len(ms))
                x = r.random()
                t = self.scalar()
                if x < 0.55:
                    ms.append((m, "s", t, 0, None)); txt.append("%s %s;" % (self.tname(t), m))
                elif x < 0.75:
                    n = r.choice([2, 4, 8])
                    ms.append((m, "a", t, n, None)); txt.append("%s %s[%d];" % (self.tname(t), m, n))
                elif x < 0.87 and self.structs:
                    st = r.choice(self.structs)
                    ms.append((m, "S", None, 0, st)); txt.append("struct %s %s;" % (st.tag, m))
                else:
                    ms.append((m, "p", t, 0, None)); txt.append("%s *%s;" % (self.tname(t), m))
            sp = None
            if r.random() < 0.4:
                sp = "next"
                txt.insert(r.randrange(len(txt) + 1), "struct %s *next;" % tag)
            if not any(m[1] in "sa" for m in ms):
                ms.append(("zz", "s", "i", 0, None)); txt.append("int zz;")
            o.append("struct %s { %s };" % (tag, " ".join(txt)))
            self.structs.append(Struct(tag, ms, sp))
        for _ in range(r.randrange(2, 8)):
            self.global_var()

    def const(self, t):
        r = self.r
        x = r.random()
        if x < 0.1:
            return r.choice(["'a'", "'\\n'", "'\\0'", "'z'", "'\\x41'", "'\\''", "'\\101'", "'\\t'", "'\\\\'", "'\"'", "'\\xff'", "'\\7'", "'?'", "' '"])
        if x < 0.2 and self.enums:
            return r.choice(r.choice(self.enums)[1])
        u = t if t != "c" else "i"
        v = r.choice(bounds(t)) if r.random() < 0.4 else r.randrange(0, 1000)
        v = wrap(u, v)
        if v < 0:
            return "-%d%s" % (min(-v, (1 << (8 * SIZE[u] - 1)) - 1), SUFFIX[u])
        if r.random() < 0.15:
            return ("0x%x%s" if r.random() < 0.7 else "0%o%s") % (v, SUFFIX[u])
        return "%d%s" % (v, SUFFIX[u])

    def global_var(self):
        r, o = self.r, self.out
        x = r.random()
        t = self.scalar()
        n = self.fresh("g")
        if x < 0.4:
            o.append("%s %s%s;" % (self.tname(t), n, " = " + self.const(t) if r.random() < 0.6 else ""))
            self.globals.append(V(n, "s", t))
        elif x < 0.6:
            c = r.choice([2, 4, 8, 16])
            ini = ""
            if t == "c" and r.random() < 0.5:
                ini = ' = "%s"' % "".join(r.choice("abcxyz 019") for _ in range(r.randrange(0, c)))
            elif r.random() < 0.6:
                ini = " = {%s}" % ", ".join(self.const(t) for _ in range(r.randrange(1, c + 1)))
            o.append("%s %s[%d]%s;" % (self.tname(t), n, c, ini))
            self.globals.append(V(n, "a", t, c))
        elif x < 0.68:
            a, b = r.choice([2, 4]), r.choice([2, 4, 8])
            ini = ""
            if r.random() < 0.5:
                ini = " = {%s}" % ", ".join("{%s}" % ", ".join(self.const(t) for _ in range(r.randrange(1, b + 1))) for _ in range(r.randrange(1, a + 1)))
            o.append("%s %s[%d][%d]%s;" % (self.tname(t), n, a, b, ini))
            self.globals.append(V(n, "m", t, a, b))
        elif x < 0.85:
            st = r.choice(self.structs)
            ini = ""
            if r.random() < 0.3 and st.members[0][1] == "s" and st.self_ptr is None:
                ini = " = {%s}" % self.const(st.members[0][2])
            o.append("struct %s %s%s;" % (st.tag, n, ini))
            self.globals.append(V(n, "S", None, st=st))
        else:
            st = r.choice(self.structs)
            c = r.choice([2, 4])
            o.append("struct %s %s[%d];" % (st.tag, n, c))
            self.globals.append(V(n, "A", None, c, st=st))

    # ------------------------------------------------------------ expressions
    # places: (text, type, lvalue?)  all pure
    def members(self, text, arrow, st, depth=0):
        out = []
        op = "->" if arrow else "."
        for m, kind, t, n, sub in st.members:
            if kind == "s":
                out.append(("%s%s%s" % (text, op, m), t))
            elif kind == "a":
                out.append(("%s%s%s[%s]" % (text, op, m, self.index(n)), t))
            elif kind == "S" and depth < 2:
                out += self.members("%s%s%s" % (text, op, m), False, sub, depth + 1)
        return out

    def index(self, n):
        r = self.r
        if r.random() < 0.5:
            return str(r.randrange(n))
        s = [v for v in self.visible() if v.kind == "s" and v.t in "iulmqc"]
        if not s:
            return str(r.randrange(n))
        v = r.choice(s)
        return "%s & %d" % (v.name, n - 1)

    def visible(self):
        seen, out = set(), []
        for v in self.scope[::-1]:
            if v.name not in seen:
                seen.add(v.name)
                out.append(v)
        for v in self.counters + self.globals_view:
            if v.name not in seen:
                seen.add(v.name)
                out.append(v)
        return out

    def place(self, want=None, write=False):
        """(text, type) of a scalar place"""
        r = self.r
        vs = self.visible()
        for _ in range(8):
            v = r.choice(vs)
            if write and v.ro:
                continue
            if v.kind == "s":
                c = (v.name, v.t)
            elif v.kind == "a":
                i = self.index(v.n)
                c = ("%s[%s]" % (v.name, i), v.t) if r.random() < 0.8 else ("*(%s + (%s))" % (v.name, i), v.t)
            elif v.kind == "m":
                c = ("%s[%s][%s]" % (v.name, self.index(v.n), self.index(v.n2)), v.t)
            elif v.kind == "S":
                c = r.choice(self.members(v.name, False, v.st))
            elif v.kind == "A":
                c = r.choice(self.members("%s[%s]" % (v.name, self.index(v.n)), False, v.st))
            elif v.kind == "p":
                c = ("*%s" % v.name if r.random() < 0.6 else "%s[0]" % v.name, v.t)
            elif v.kind == "P":
                c = r.choice(self.members(v.name, True, v.st)) if r.random() < 0.8 else r.choice(self.members("(*%s)" % v.name, False, v.st))
            else:
                continue
            if want is None or c[1] == want:
                return c
        s = [v for v in vs if v.kind == "s" and not (write and v.ro)]
        if s:
            v = r.choice(s)
            return v.name, v.t
        v = [v for v in self.globals_view if v.kind == "s"][0]
        return v.name, v.t

    def expr(self, d=3):
        """pure expression: (text, type); the text is a complete operand"""
        r = self.r
        x = r.random()
        if d <= 0 or x < 0.18:
            if r.random() < 0.3:
                t = self.scalar()
                c = self.const(t)
                if c.startswith("'"):
                    return c, "i"
                if c[0].isalpha():
                    return c, "i"
                return ("(%s)" % c if c[0] == "-" else c), ("i" if t == "c" else t)
            return self.place()
        if x < 0.5:
            a, ta = self.expr(d - 1)
            b, tb = self.expr(d - 2)
            op = r.choice(["+", "-", "*", "&", "|", "^"])
            t = common(ta, tb)
            if op in "+-*" and SIGNED[t]:
                # keep signed arithmetic in range
                ut = UNSIGNED_OF[t]
                if r.random() < 0.5:
                    return "((%s)((%s)%s %s %s))" % (NAME[t], NAME[ut], a, op, b), t
                return "((%s & 0x%x) %s (%s & 0x%x))" % (a, r.choice([7, 255, 1023, 15]), op, b, r.choice([7, 255, 1023, 63])), t
            return "(%s %s %s)" % (a, op, b), t
        if x < 0.57:
            a, ta = self.expr(d - 1)
            b, tb = self.expr(d - 2)
            op = r.choice("/%")
            if r.random() < 0.5:
                c = r.choice([1, 2, 3, 5, 7, 10, 16, 100])
                return "(%s %s %d)" % (a, op, c), common(ta, "i")
            return "(%s %s ((%s & %d) + 1))" % (a, op, b, r.choice([3, 7, 15])), common(ta, common(tb, "i"))
        if x < 0.64:
            a, ta = self.expr(d - 1)
            ta = promote(ta)
            b, tb = self.expr(d - 2)
            if r.random() < 0.5:
                return "(%s >> (%s & %d))" % (a, b, r.choice([3, 7, 31])), ta
            if SIGNED[ta]:
                return "((%s)%s << (%s & 7))" % (NAME[UNSIGNED_OF[ta]], a, b), UNSIGNED_OF[ta]
            return "(%s << (%s & 15))" % (a, b), ta
        if x < 0.76:
            a, ta = self.expr(d - 1)
            b, tb = self.expr(d - 1)
            return "(%s %s %s)" % (a, r.choice(REL), b), "i"
        if x < 0.82:
            a, _ = self.expr(d - 1)
            b, _ = self.expr(d - 1)
            return "(%s %s %s)" % (a, r.choice(LOGIC), b), "i"
        if x < 0.88:
            c, _ = self.expr(d - 2)
            a, ta = self.expr(d - 1)
            b, tb = self.expr(d - 1)
            return "(%s ? %s : %s)" % (c, a, b), common(ta, tb)
        if x < 0.94:
            a, ta = self.expr(d - 1)
            op = r.choice("!~+-")
            if op == "!":
                return "(!%s)" % a, "i"
            if op == "-":
                t = promote(ta)
                if SIGNED[t]:
                    return "(-(%s & 0xffff))" % a, t
                return "(-%s)" % a, t
            return "(%s%s)" % (op, a), promote(ta)
        if x < 0.97:
            e = self.odd()
            if e:
                return e
        a, ta = self.expr(d - 1)
        t = self.scalar()
        return "((%s)%s)" % (self.tname(t), a), t

    def odd(self):
        """strings, sizes, differences, comparisons and conversions of pointers"""
        r = self.r
        x = r.random()
        if x < 0.25:
            n = r.choice([2, 4, 8])
            s = "".join(r.choice(["a", "b", "Z", "0", "\\n", "\\0", "\\\\", "\\x7f ", "\\047", " ", "%", "\\\""]) for _ in range(n))
            return r.choice(['"%s"[%s]' % (s, self.index(n)), '*"%s"' % s, '*("%s" + %d)' % (s, r.randrange(n))]), "c"
        vs = self.visible()
        arr = [v for v in vs if v.kind in "aAm" and not v.ro]
        if x < 0.5 and vs:
            v = r.choice(vs)
            if v.kind in "smSApP" and v.name not in self.params_here and v.name[0] != "K":
                return "((int)sizeof(%s))" % r.choice([v.name, v.name, "&" + v.name if not v.ro else v.name] + (["*" + v.name] if v.kind in "pPAm" else [])), "i"
            return None
        if not arr:
            return None
        v = r.choice(arr)
        i, j = self.index(v.n), r.randrange(v.n)
        if x < 0.7:
            return "((long)(%s - %s))" % (r.choice(["&%s[%s]" % (v.name, i), "(%s + (%s))" % (v.name, i)]), r.choice([v.name, "&%s[0]" % v.name])), "l"
        if x < 0.9:
            return "(&%s[%s] %s %s + %d)" % (v.name, i, r.choice(REL), v.name, j), "i"
        return "(%s && !!&%s[%d])" % (v.name, v.name, j), "i"

    def arg(self, p):
        """an argument for parameter (kind, t, n, st), or None"""
        r = self.r
        kind, t, n, st = p
        if kind == "s":
            return self.expr(2)[0]
        c = []
        for v in self.visible():
            if kind == "p":
                if v.kind == "a" and v.t == t and v.n >= n and not v.ro:
                    c += [v.name, "&%s[0]" % v.name]
                    if v.n > n:
                        c.append("%s + %d" % (v.name, v.n - n))
                if v.kind == "m" and v.t == t and v.n2 >= n:
                    c.append("%s[%d]" % (v.name, r.randrange(v.n)))
                if v.kind == "p" and v.t == t and v.n >= n:
                    c.append(v.name)
                if v.kind == "s" and v.t == t and n <= 1 and not v.ro:
                    c.append("&" + v.name)
            if kind == "P":
                if v.kind == "S" and v.st is st:
                    c.append("&" + v.name)
                if v.kind == "P" and v.st is st:
                    c.append(v.name)
                if v.kind == "A" and v.st is st:
                    c += ["&%s[%s]" % (v.name, self.index(v.n)), "%s + %d" % (v.name, r.randrange(v.n))]
        return r.choice(c) if c else None

    def call(self):
        """(text, type) of a call or None; the callee may have side effects"""
        r = self.r
        fs = self.callable
        if not fs:
            return None
        for _ in range(4):
            f = r.choice(fs)
            args = [self.arg(p) for p in f.params]
            if all(a is not None for a in args):
                name = f.name
                if r.random() < 0.1:
                    name = "(*%s)" % name
                return "%s(%s)" % (name, ", ".join(args)), f.ret
        return None

    def cond(self, d=2):
        """a condition, side effects sequenced"""
        r = self.r
        x = r.random()
        if x < 0.55 or d <= 0:
            return self.expr(2)[0]
        if x < 0.7:
            c = self.call()
            if c and c[1] != "z":
                return "%s %s %s" % (c[0], r.choice(REL), self.const("i")) if r.random() < 0.6 else c[0]
            return self.expr(2)[0]
        if x < 0.92:
            return "(%s) %s (%s)" % (self.cond(d - 1), r.choice(LOGIC), self.cond(d - 1))
        return "!(%s)" % self.cond(d - 1)

    # ------------------------------------------------------------ statements
    def log(self):
        r = self.r
        e, t = self.expr(2) if r.random() < 0.5 else self.place()
        return "%s(%s);" % (LOG[t], e)

    def assign(self):
        r = self.r
        x = r.random()
        p, t = self.place(write=True)
        if x < 0.4:
            return "%s = %s;" % (p, self.expr(3)[0])
        if x < 0.55:
            c = self.call()
            if c and c[1] != "z":
                # the callee may change what the left side names: use a plain variable
                s = [v for v in self.visible() if v.kind == "s" and not v.ro]
                if s:
                    return "%s = %s;" % (r.choice(s).name, c[0])
            return "%s = %s;" % (p, self.expr(3)[0])
        if x < 0.7:
            op = r.choice(["&", "|", "^"] + (["+", "-", "*"] if t in "umv" else []))
            e, te = self.expr(2)
            return "%s %s= %s;" % (p, op, e)
        if x < 0.76:
            return "%s %s= (%s & 7) + 1;" % (p, r.choice("/%"), self.expr(1)[0])
        if x < 0.8:
            return "%s >>= (%s & 3);" % (p, self.expr(1)[0])
        if x < 0.88:
            q, _ = self.place(write=True)
            return "%s = %s = %s;" % (p, q, self.expr(2)[0]) if q != p else "%s = %s;" % (p, self.expr(2)[0])
        if SIGNED[t] and t != "c":
            return "%s = %s & 0xffff;" % (p, p) if "++" in p else "%s &= 0x7ffff; %s;" % (p, self.incdec(p))
        return "%s;" % self.incdec(p)

    def incdec(self, p):
        if p.startswith("*"):
            p = "(%s)" % p
        return self.r.choice(["%s++", "++%s", "%s--", "--%s"]) % p

    def decl(self):
        r = self.r
        n = r.choice([self.fresh("l"), self.fresh("l"), r.choice("xyzwkn")])
        if any(v.name == n and v.depth == self.depth for v in self.scope) or (self.depth <= 1 and n in self.params_here):
            n = self.fresh("l")
        x = r.random()
        t = self.scalar()
        d = self.depth
        if x < 0.5:
            e = self.expr(2)[0]
            if n in e:
                e = self.const(t)
            self.scope.append(V(n, "s", t, depth=d))
            return "%s %s = %s;" % (self.tname(t), n, e)
        if x < 0.68:
            c = r.choice([2, 4, 8])
            k = r.randrange(1, c + 1)
            if t == "c" and r.random() < 0.4:
                ini = '"%s"' % "".join(r.choice("abcxyz") for _ in range(r.randrange(c)))
            else:
                ini = "{%s}" % ", ".join(self.const(t) if r.random() < 0.7 else self.pure_no(n) for _ in range(k))
            self.scope.append(V(n, "a", t, c, depth=d))
            return "%s %s[%d] = %s;" % (self.tname(t), n, c, ini)
        if x < 0.7:
            a, b = r.choice([2, 4]), r.choice([2, 4])
            ini = "{%s}" % ", ".join("{%s}" % ", ".join(self.const(t) if r.random() < 0.7 else self.pure_no(n) for _ in range(r.randrange(1, b + 1))) for _ in range(r.randrange(1, a + 1)))
            self.scope.append(V(n, "m", t, a, b, depth=d))
            return "%s %s[%d][%d] = %s;" % (self.tname(t), n, a, b, ini)
        if x < 0.72:
            k = self.fresh("K")
            self.scope.append(V(k, "s", "i", depth=d, ro=True))
            return "enum { %s = %d };" % (k, r.randrange(200)) if r.random() < 0.7 else "enum %s { %s, %s };" % (self.fresh("E"), self.fresh("K"), k)
        if x < 0.8 and self.structs and r.random() < 0.5:
            plain = [st for st in self.structs if st.self_ptr is None and self.listable(st)]
            if plain:
                st = r.choice(plain)
                if r.random() < 0.5:
                    c = r.choice([2, 4])
                    ini = "{%s}" % ", ".join(self.braced(st, n) for _ in range(r.randrange(1, c + 1)))
                    self.scope.append(V(n, "A", None, c, depth=d, st=st))
                    return "struct %s %s[%d] = %s;" % (st.tag, n, c, ini)
                ini = self.braced(st, n)
                self.scope.append(V(n, "S", None, depth=d, st=st))
                return "struct %s %s = %s;" % (st.tag, n, ini)
        if x < 0.8 and self.structs:
            st = r.choice(self.structs)
            self.scope.append(V(n, "S", None, depth=d, st=st))
            txt = "struct %s %s;" % (st.tag, n)
            for m, kind, mt, cnt, sub in st.members:
                txt += self.init_member("%s.%s" % (n, m), kind, mt, cnt, sub)
            return txt
        if x < 0.92:
            c = [(v.name, v.n) for v in self.visible() if v.kind == "a" and v.t == t and v.name != n and not v.ro]
            c += [("&" + v.name, 1) for v in self.visible() if v.kind == "s" and v.t == t and v.name != n and not v.ro]
            if c:
                e, cnt = r.choice(c)
                self.scope.append(V(n, "p", t, max(1, cnt), depth=d))
                return "%s *%s = %s;" % (self.tname(t), n, e)
        if self.structs:
            st = r.choice(self.structs)
            c = ["&" + v.name for v in self.visible() if v.kind == "S" and v.st is st and v.name != n]
            c += ["&%s[%d]" % (v.name, r.randrange(v.n)) for v in self.visible() if v.kind == "A" and v.st is st and v.name != n]
            if c:
                self.scope.append(V(n, "P", None, depth=d, st=st))
                return "struct %s *%s = %s;" % (st.tag, n, r.choice(c))
        e = self.const(t)
        self.scope.append(V(n, "s", t, depth=d))
        return "%s %s = %s;" % (self.tname(t), n, e)

    def listable(self, st):
        return all(m[1] in "sa" or m[1] == "S" and m[4].self_ptr is None and self.listable(m[4]) for m in st.members)

    def braced(self, st, n):
        """an initializer list for a struct, perhaps not to its end"""
        r = self.r
        out = []
        for m, kind, t, cnt, sub in st.members[:r.randrange(1, len(st.members) + 1)]:
            if kind == "s":
                out.append(self.const(t) if r.random() < 0.6 else self.pure_no(n))
            elif kind == "a":
                out.append('"%s"' % "".join(r.choice("abc") for _ in range(r.randrange(cnt))) if t == "c" and r.random() < 0.4 else "{%s}" % ", ".join(self.const(t) for _ in range(r.randrange(1, cnt + 1))))
            else:
                out.append(self.braced(sub, n))
        return "{%s}" % ", ".join(out)

    def pure_no(self, n):
        e = self.expr(1)[0]
        return "0" if n in e else e

    def init_member(self, text, kind, t, cnt, sub):
        if kind == "s":
            return " %s = %s;" % (text, self.const(t))
        if kind == "a":
            return "".join(" %s[%d] = %s;" % (text, i, self.const(t)) for i in range(cnt))
        if kind == "S":
            return "".join(self.init_member("%s.%s" % (text, m), k, mt, c, s) for m, k, mt, c, s in sub.members)
        return ""

    def block(self, n):
        r = self.r
        mark = len(self.scope)
        self.depth += 1
        out = []
        for _ in range(r.randrange(0, 2)):
            out.append(self.decl())
        for _ in range(n):
            out.append(self.stmt())
            if r.random() < 0.12:
                out.append(self.decl())
        self.depth -= 1
        del self.scope[mark:]
        return "{ %s }" % " ".join(out)

    def body(self):
        r = self.r
        if r.random() < 0.3:
            return self.simple()
        return self.block(r.randrange(1, 4))

    def simple(self):
        r = self.r
        x = r.random()
        if x < 0.05:
            w = self.walk()
            if w:
                return w
        if x < 0.32:
            return self.log()
        if x < 0.44:
            c = self.call()
            if c:
                return c[0] + ";"
        if x < 0.48 and self.loops:
            return "if (%s) %s;" % (self.cond(), r.choice(["break", "continue"]) if self.loops[-1] == "for" else "break")
        if x < 0.5:
            return "if (%s) return%s;" % (self.cond(1), "" if self.ret == "z" else " " + self.retval())
        s = self.assign()
        if s.count(";") > 1:
            s = "{ %s }" % s
        return s

    def walk(self):
        """a pointer run over an array or moved to another object"""
        r = self.r
        vs = self.visible()
        ps = [v for v in vs if v.kind == "p" and v.name not in self.params_here and v.n == 1]
        if ps and r.random() < 0.4:
            p = r.choice(ps)
            c = ["&" + v.name for v in vs if v.kind == "s" and v.t == p.t and not v.ro and v.depth <= p.depth]
            c += ["&%s[%s]" % (v.name, self.index(v.n)) for v in vs if v.kind == "a" and v.t == p.t and not v.ro and v.depth <= p.depth]
            c += ["%s + %d" % (v.name, r.randrange(v.n)) for v in vs if v.kind == "a" and v.t == p.t and not v.ro and v.depth <= p.depth]
            if c:
                return "%s = %s;" % (p.name, r.choice(c))
        arr = [v for v in vs if v.kind == "a" and not v.ro and v.n > 1]
        if not arr:
            return None
        v = r.choice(arr)
        w = self.fresh("w")
        log = LOG[v.t]
        T = self.tname(v.t)
        return r.choice([
            "{ %(T)s *%(w)s; for (%(w)s = %(a)s; %(w)s < %(a)s + %(n)d; %(w)s++) %(log)s(*%(w)s); }",
            "{ %(T)s *%(w)s = %(a)s + %(n)d; while (%(w)s != %(a)s) %(log)s(*--%(w)s); }",
            "{ %(T)s *%(w)s = &%(a)s[0]; %(T)s **%(w)sp = &%(w)s; while (*%(w)sp - %(a)s < %(n)d) { %(log)s(**%(w)sp); (*%(w)sp)++; } }",
            "{ %(T)s *%(w)s[2] = {%(a)s, &%(a)s[1]}; %(log)s(*%(w)s[0]); %(log)s(%(w)s[1][0]); *%(w)s[1] = %(c)s; %(log)s(%(a)s[1]); }",
            "{ %(T)s *%(w)s = %(a)s; *%(w)s++ = %(c)s; *%(w)s = 1; %(log)s(%(w)s[-1]); %(log)s(*%(w)s--); log_i(%(w)s == %(a)s); }",
            "{ char *%(w)s = (char *)%(a)s; int %(w)si; int %(w)ss = 0; for (%(w)si = 0; %(w)si < %(n)d; %(w)si += 1) %(w)ss ^= %(w)s[%(w)si]; log_i(%(w)ss); }",
        ]) % {"T": T, "w": w, "a": v.name, "n": v.n, "log": log, "c": self.const(v.t)}

    def retval(self):
        return self.expr(2)[0]

    def stmt(self):
        r = self.r
        self.left -= 1
        if self.left <= 0 or self.depth > 5:
            return self.simple()
        x = r.random()
        if x < 0.5:
            return self.simple()
        if x < 0.64:
            s = "if (%s) %s" % (self.cond(), self.body())
            if r.random() < 0.5:
                s = "if (%s) { %s } else %s" % (self.cond(), self.simple(), self.body())
            return s
        if x < 0.8:
            i = self.fresh("i")
            k = r.randrange(1, 6)
            self.prelude.append("int %s = 0;" % i)
            self.counters.append(V(i, "s", "i", depth=0, ro=True))
            self.loops.append("for")
            mark = self.loopdepth
            self.loopdepth += 1
            if self.loopdepth > 3:
                k = 2
            if r.random() < 0.6:
                s = "for (%s = 0; %s < %d; %s) %s" % (i, i, k, r.choice(["%s++", "++%s", "%s += 1", "%s = %s + 1"]).replace("%s", i), self.body())
            else:
                # the step comes first: continue may not skip it
                s = "%s = 0; while (%s < %d) { %s++; %s }" % (i, i, k, i, self.body())
                s = "{ %s }" % s
            self.loopdepth = mark
            self.loops.pop()
            return s
        if x < 0.9:
            self.loops.append("switch")
            cases, used = [], set()
            for _ in range(r.randrange(1, 5)):
                v = r.randrange(0, 6)
                if v in used:
                    continue
                used.add(v)
                cases.append("case %d: %s%s" % (v, self.simple(), r.choice([" break;", " break;", ""])))
            if r.random() < 0.6:
                cases.insert(r.randrange(len(cases) + 1), "default: %s%s" % (self.simple(), r.choice([" break;", ""])))
            self.loops.pop()
            return "switch (%s & 7) { %s }" % (self.expr(2)[0], " ".join(cases))
        return self.block(r.randrange(1, 4))

    # ------------------------------------------------------------ functions
    def function(self, last=False):
        r = self.r
        name = self.fresh("f")
        ret = r.choice("iiiiculmqvzz")
        params, decls = [], []
        self.scope, self.counters, self.depth, self.loops, self.prelude = [], [], 1, [], []
        self.loopdepth = 0
        self.ret = ret
        self.left = self.nstmts
        self.globals_view = list(self.globals)
        self.params_here = set()
        self.callable = list(self.fns)
        for i in range(r.choice([0, 1, 1, 2, 2, 3, 4, 6, 8])):
            pn = "p%d" % i if r.random() < 0.8 else "abcdefghi"[i]
            self.params_here.add(pn)
            x = r.random()
            t = self.scalar()
            if x < 0.7:
                params.append(("s", t, 0, None)); decls.append("%s %s" % (self.tname(t), pn))
                self.scope.append(V(pn, "s", t, depth=1))
            elif x < 0.86 or not self.structs:
                n = r.choice([1, 1, 2, 4])
                params.append(("p", t, n, None)); decls.append("%s *%s" % (self.tname(t), pn))
                self.scope.append(V(pn, "a" if n > 1 else "p", t, n, depth=1))
            else:
                st = r.choice(self.structs)
                params.append(("P", None, 0, st)); decls.append("struct %s *%s" % (st.tag, pn))
                self.scope.append(V(pn, "P", None, depth=1, st=st))
        recursive = r.random() < 0.2
        f = Fn(name, ret, params, False)
        body = []
        for _ in range(r.randrange(1, 4)):
            body.append(self.decl())
        for _ in range(r.randrange(2, self.nstmts // 2 + 2)):
            body.append(self.stmt())
        if recursive:
            g = self.fresh("d")
            self.out.append("int %s;" % g)
            args = [self.arg(p) for p in params]
            if all(a is not None for a in args):
                call = "%s(%s)" % (name, ", ".join(args))
                if ret != "z":
                    call = "%s(%s);" % (LOG[ret], call)
                else:
                    call += ";"
                body.append("if (%s < %d) { %s++; %s %s--; }" % (g, r.choice([1, 2, 3]), g, call, g))
        ps = ", ".join(decls) or "void"
        text = "%s %s(%s) { %s %s" % ("void" if ret == "z" else self.tname(ret), name, ps, " ".join(self.prelude), " ".join(body))
        if ret != "z":
            text += " return %s;" % self.retval()
        text += " }"
        self.out.append(text)
        self.fns.append(f)
        # a pointer to it, set and used by the entry
        if r.random() < 0.25 and all(p[0] == "s" for p in params):
            fp = self.fresh("fp")
            self.out.append("%s (*%s)(%s);" % (NAME[ret], fp, ps))
            self.fptrs.append((fp, f))

    def dump(self):
        out = []

        def mem(text, st):
            for m, kind, t, n, sub in st.members:
                if kind == "s":
                    out.append("%s(%s.%s);" % (LOG[t], text, m))
                elif kind == "a":
                    for i in range(n):
                        out.append("%s(%s.%s[%d]);" % (LOG[t], text, m, i))
                elif kind == "S":
                    mem("%s.%s" % (text, m), sub)
        for v in self.globals:
            if v.kind == "s":
                out.append("%s(%s);" % (LOG[v.t], v.name))
            elif v.kind == "a":
                out += ["%s(%s[%d]);" % (LOG[v.t], v.name, i) for i in range(v.n)]
            elif v.kind == "m":
                out += ["%s(%s[%d][%d]);" % (LOG[v.t], v.name, i, j) for i in range(v.n) for j in range(v.n2)]
            elif v.kind == "S":
                mem(v.name, v.st)
            elif v.kind == "A":
                for i in range(v.n):
                    mem("%s[%d]" % (v.name, i), v.st)
        return out

    def generate(self, entry):
        r = self.r
        self.globals_section()
        if not any(v.kind == "s" for v in self.globals):
            n = self.fresh("g")
            self.out.append("int %s;" % n)
            self.globals.append(V(n, "s", "i"))
        for _ in range(r.randrange(2, self.size + 1)):
            self.function()
        self.scope, self.counters, self.depth, self.loops, self.prelude = [], [], 1, [], []
        self.globals_view = list(self.globals)
        self.params_here = set()
        self.callable = list(self.fns)
        body = ["%s = %s;" % (fp, r.choice([f.name, "&" + f.name])) for fp, f in self.fptrs]
        for f in self.fns:
            for _ in range(r.randrange(1, 3)):
                args = [self.arg(p) for p in f.params]
                if any(a is None for a in args):
                    continue
                c = "%s(%s)" % (f.name, ", ".join(args))
                body.append("%s(%s);" % (LOG[f.ret], c) if f.ret != "z" else c + ";")
        for fp, f in self.fptrs:
            args = [self.arg(p) for p in f.params]
            c = r.choice(["%s(%s)", "(*%s)(%s)"]) % (fp, ", ".join(args))
            body.append("%s(%s);" % (LOG[f.ret], c) if f.ret != "z" else c + ";")
        self.out.append("void %s(void) { %s }" % (entry, " ".join(body)))
        d = self.dump()
        chunks = [d[i:i + 60] for i in range(0, len(d), 60)]
        names = []
        for c in chunks:
            n = self.fresh("dump")
            names.append(n)
            self.out.append("void %s(void) { %s }" % (n, " ".join(c)))
        e = self.out
        self.out = e
        self.out.append("void %s_all(void) { %s(); %s }" % (entry, entry, " ".join(n + "();" for n in names)))
        return "\n".join(self.out) + "\n"


def program(rnd, k="", size=6, stmts=14):
    p = Prog(rnd, k, size, stmts)
    e = "entry%s" % p.k
    return p.generate(e), e + "_all"
