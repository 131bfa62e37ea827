"""Programs in which few names denote many things: every name space, every kind of scope, every use logged.

Each declaration carries a value of its own (initial value, size, member offset), so that a use which refers to
another declaration logs something else."""

NAMES = ["a", "b", "c", "x"]
INTS = [("char", "log_c", 1), ("int", "log_i", 4), ("long", "log_l", 8), ("unsigned int", "log_u", 4), ("unsigned long", "log_m", 8), ("long long", "log_q", 8)]


def spellings(r, k):
    """four names and three for types which are easily taken for one another: alike but for one place, of the same letters, one the beginning of the other"""
    style = r.randrange(7)
    if style == 0:
        c = r.choice("pqrt_") * r.choice([7, 14, 15, 30, 31, 32, 62, 63, 64, 127, 255, 256, 300, 1000])
        ns = ["%s%s_%s" % ("n" + k, c, x) for x in ("a", "b", "c", "x", "T", "U", "V")]
    elif style == 1:
        c = r.choice(["tail", "_" * 40, "z" * 70, "q" * 300])
        ns = [x + c + k for x in ("a", "b", "c", "x", "T", "U", "V")]
    elif style == 2:
        ns = [x + k for x in ("abc", "acb", "bac", "bca", "cab", "cba", "ab_c")]     # the same letters
    elif style == 3:
        ns = ["n" + k + "_" * i for i in range(7)]                                      # one begins the other
    elif style == 4:
        ns = [x + k for x in ("int", "Int", "INT", "iNt", "inT", "INt", "iNT")]
    elif style == 5:
        kw = r.sample(["if", "int", "char", "for", "while", "struct", "enum", "typedef", "return", "sizeof", "switch", "case", "default", "break", "unsigned", "void", "long", "else", "continue"], 7)
        ns = [x + k for x in kw]
    else:
        ns = ["%s%s" % (x, k) for x in ("rax", "eax", "main", "L1", "L", "rsp", "add")]
    r.shuffle(ns)
    return ns[:4], ns[4:]


class Ent:
    """what an ordinary name denotes"""

    def __init__(self, kind, name, **kw):
        self.kind, self.name = kind, name
        self.__dict__.update(kw)


class Scopes:
    def __init__(self, rnd, k, names=None, tnames=None):
        self.r, self.k = rnd, k
        self.names = names or ["%s%s" % (n, k) for n in NAMES]
        self.tnames = tnames or ["T%s" % k, "U%s" % k, "V%s" % k]
        self.ord = [{}]         # ordinary names
        self.tags = [{}]        # tags: name -> ("struct", members) | ("enum",) | ("open",)
        self.tds = [{}]         # typedef names -> (type, log, size) | struct members
        self.val = 0
        self.fn = 0
        self.sizes = 0
        self.budget = 60
        self.late = {}          # functions declared in blocks, defined at the end of the file

    # ---- tables
    def look(self, table, n):
        for s in reversed(table):
            if n in s:
                return s[n]
        return None

    def push(self):
        self.ord.append({})
        self.tags.append({})
        self.tds.append({})

    def pop(self):
        self.ord.pop()
        self.tags.pop()
        self.tds.pop()

    def value(self, size):
        self.val += 1
        return self.val % 100 + 1 if size == 1 else self.val * 7 + 1000

    def name(self):
        return self.r.choice(self.names)

    # ---- declarations: each returns text, or "" if it cannot be made here
    def members(self):
        """distinct member names from the same pool, with a size no other struct has"""
        r = self.r
        self.sizes += 1
        ms = []
        for n in r.sample(self.names, r.randrange(1, len(self.names) + 1)):
            t = r.choice(INTS)
            ms.append((n, t[0], t[1]))
        return ms, self.sizes

    def struct_text(self, tag, ms, pad):
        return "struct %s{ %s char pad_[%d]; }" % (tag + " " if tag else "", " ".join("%s %s;" % (t, n) for n, t, _ in ms), pad)

    def decl_int(self, n, glob=False):
        t, lg, sz = self.r.choice(INTS)
        v = self.value(sz)
        self.ord[-1][n] = Ent("int", n, t=t, log=lg, size=sz)
        return "%s %s = %d;" % (t, n, v)

    def decl_list(self, n):
        """several declarators, later ones see earlier ones"""
        t, lg, sz = "int", "log_i", 4
        v = self.value(4)
        self.ord[-1][n] = Ent("int", n, t=t, log=lg, size=sz)
        out = "int %s = %d" % (n, v)
        o = self.name()
        if o not in self.ord[-1]:
            self.ord[-1][o] = Ent("int", o, t=t, log=lg, size=sz)
            out += ", %s = %s + %d" % (o, n, self.r.randrange(1, 9))
        return out + ";"

    def decl_self(self, n):
        """the scope of a name begins before its initializer"""
        t, lg, sz = self.r.choice(INTS)
        self.ord[-1][n] = Ent("int", n, t=t, log=lg, size=sz)
        return "%s %s = sizeof(%s);" % (t, n, n)

    def decl_ptr(self, n):
        """a pointer to the outer object of some name"""
        o = self.name()
        e = self.look(self.ord, o)
        if e is None or e.kind != "int" or o == n:
            return ""
        self.ord[-1][n] = Ent("ptr", n, t=e.t, log=e.log)
        return "%s *%s = &%s;" % (e.t, n, o)

    def decl_array(self, n):
        t, lg, sz = self.r.choice(INTS)
        k = self.r.randrange(1, 5)
        vs = [self.value(sz) for _ in range(k)]
        self.ord[-1][n] = Ent("array", n, t=t, log=lg, n=k)
        return "%s %s[%d] = {%s};" % (t, n, k, ", ".join(map(str, vs)))

    def decl_enum(self, n):
        """enumerators are ordinary names, the tag is not; later enumerators see earlier ones"""
        tag = ""
        if self.r.random() < 0.5:
            tag = self.name()
            if tag in self.tags[-1]:
                tag = ""
            else:
                self.tags[-1][tag] = ("enum",)
        v = self.value(4)
        out = "enum %s{ %s = %d" % (tag + " " if tag else "", n, v)
        self.ord[-1][n] = Ent("const", n)
        o = self.name()
        if o not in self.ord[-1] and (len(self.ord) > 1 or o not in self.late):
            self.ord[-1][o] = Ent("const", o)
            out += ", %s%s" % (o, self.r.choice(["", " = %s" % n, " = %d" % self.value(4)]))
        return out + " };"

    def decl_struct(self, n):
        """a struct type and perhaps an object of it"""
        r = self.r
        tag = self.name()
        if tag in self.tags[-1] and self.tags[-1][tag] != ("open",):
            return ""
        ms, pad = self.members()
        self.tags[-1][tag] = ("struct", ms)
        t = self.struct_text(tag, ms, pad)
        if r.random() < 0.5:
            return t + ";"
        self.ord[-1][n] = Ent("struct", n, ms=ms)
        return "%s %s; %s" % (t, n, self.fill(n, ms))

    def fill(self, obj, ms, arrow="."):
        return " ".join("%s%s%s = %d;" % (obj, arrow, m, self.value(1 if t == "char" else 4)) for m, t, _ in ms)

    def decl_obj(self, n):
        """an object of a visible struct type"""
        tag = self.name()
        e = self.look(self.tags, tag)
        if not e or e[0] != "struct":
            return ""
        self.ord[-1][n] = Ent("struct", n, ms=e[1])
        return "struct %s %s; %s" % (tag, n, self.fill(n, e[1]))

    def decl_open(self, n):
        """a tag declared before its members"""
        tag = self.name()
        if tag in self.tags[-1] or n == tag:
            return ""
        ms, pad = self.members()
        self.tags[-1][tag] = ("struct", ms)
        self.ord[-1][n] = Ent("sptr", n, ms=ms)
        hid = "h%s_%d" % (self.k, pad)
        outer = any(tag in s for s in self.tags[:-1])
        # without an outer tag of that name, its first mention declares it
        return "%sstruct %s *%s; %s %s; %s = &%s; %s" % ("struct %s; " % tag if outer or self.r.random() < 0.5 else "", tag, n, self.struct_text(tag, ms, pad), hid, n, hid, self.fill(n, ms, "->"))

    def decl_typedef(self, n):
        tn = self.r.choice(self.tnames)
        if self.look(self.tds, tn) is not None:
            return ""
        t = self.r.choice(INTS)
        self.tds[-1][tn] = t
        v = self.value(t[2])
        self.ord[-1][n] = Ent("int", n, t=t[0], log=t[1], size=t[2])
        return "typedef %s %s; %s %s = %d;" % (t[0], tn, tn, n, v)

    def decl_typed(self, n):
        tn = self.r.choice(self.tnames)
        t = self.look(self.tds, tn)
        if t is None:
            return ""
        self.ord[-1][n] = Ent("int", n, t=t[0], log=t[1], size=t[2])
        return "%s %s = %d;" % (tn, n, self.value(t[2]))

    def decl_func(self, n):
        """a function declared in a block"""
        if n in self.ord[0]:
            if self.ord[0][n].kind != "func":
                return ""
        else:
            self.late.setdefault(n, self.value(4))
        self.ord[-1][n] = Ent("func", n)
        return "int %s(int%s);" % (n, self.r.choice(["", " " + self.name(), " " + n]))

    def declare(self):
        n = self.name()
        if n in self.ord[-1]:
            return ""
        return self.r.choice([self.decl_int, self.decl_int, self.decl_list, self.decl_self, self.decl_ptr, self.decl_array, self.decl_enum, self.decl_struct, self.decl_struct,
                              self.decl_obj, self.decl_obj, self.decl_open, self.decl_typedef, self.decl_typed, self.decl_func])(n)

    # ---- uses
    def use(self):
        r = self.r
        x = r.random()
        if x < 0.12:
            tag = self.name()
            e = self.look(self.tags, tag)
            if e and e[0] == "struct":
                return "log_i(sizeof(struct %s));" % tag
            if e and e[0] == "enum":
                return "log_i(sizeof(enum %s));" % tag
            return ""
        if x < 0.17:
            tn = r.choice(self.tnames)
            return "log_i(sizeof(%s));" % tn if self.look(self.tds, tn) is not None else ""
        n = self.name()
        e = self.look(self.ord, n)
        if e is None:
            return ""
        if e.kind == "int":
            y = r.random()
            if y < 0.55:
                return "%s(%s);" % (e.log, n)
            if y < 0.7:
                return "%s = %d;" % (n, self.value(e.size))
            if y < 0.8:
                return "%s++; %s(%s);" % (n, e.log, n)
            return "log_i(sizeof(%s));" % n
        if e.kind == "ptr":
            return "%s(*%s);" % (e.log, n) if r.random() < 0.6 else "*%s = %d; %s(*%s);" % (n, self.value(1), e.log, n)
        if e.kind == "array":
            i = r.randrange(e.n)
            return "%s(%s[%d]);" % (e.log, n, i) if r.random() < 0.7 else "%s[%d] = %d; log_i(sizeof(%s));" % (n, i, self.value(1), n)
        if e.kind == "const":
            return "log_i(%s);" % n if r.random() < 0.7 else "switch (%s) { case %s: log_i(1); break; default: log_i(2); }" % (n, n)
        if e.kind in ("struct", "sptr"):
            m, t, lg = r.choice(e.ms)
            op = "." if e.kind == "struct" else "->"
            return "%s(%s%s%s);" % (lg, n, op, m) if r.random() < 0.7 else "%s%s%s = %d; log_i(sizeof(%s%s));" % (n, op, m, self.value(1), "" if op == "." else "*", n)
        if e.kind == "func":
            return "log_i(%s(%d));" % (n, r.randrange(50))
        return ""

    def uses(self, n):
        return [u for u in (self.use() for _ in range(n)) if u]

    # ---- blocks
    def items(self, depth):
        r = self.r
        out = []
        for _ in range(r.randrange(3, 9)):
            if self.budget <= 0:
                break
            self.budget -= 1
            x = r.random()
            if x < 0.35:
                d = self.declare()
                if d:
                    out.append(d)
            elif x < 0.75 or depth <= 0:
                out += self.uses(2)
            else:
                out.append(self.nested(depth - 1))
        out += self.uses(3)
        return " ".join(out)

    def block(self, depth):
        self.push()
        t = "{ %s }" % self.items(depth)
        self.pop()
        return t

    def nested(self, depth):
        r = self.r
        x = r.randrange(8)
        i = "n%s_%d" % (self.k, self.val)
        if x == 0:
            return self.block(depth)
        if x == 1:
            return "if (%s) %s else %s" % (r.choice(["1", "0", "ev2(1, 0)"]), self.block(depth), self.block(depth))
        if x == 2:
            self.push()
            self.val += 1
            t = "{ int %s = 0; while (%s < 2) { %s %s++; } }" % (i, i, self.items(depth), i)
            self.pop()
            return t
        if x == 3:
            # the first part of a for statement is a scope of its own around the body
            self.push()
            n = self.name()
            self.val += 1
            self.ord[-1][n] = Ent("int", n, t="int", log="log_i", size=4)
            body = self.block(depth) if r.random() < 0.7 else "log_i(%s);" % n
            # the counter must stay under control: the body works on the name only through blocks that redeclare it, so count apart
            t = "{ int %s = 0; for (int %s = %d; %s < 2; %s++) %s }" % (i, n, self.value(4), i, i, body)
            self.pop()
            return t
        if x == 4:
            return "switch (%d) { case 1: %s break; case 2: %s default: %s }" % (r.randrange(4), self.block(depth), self.block(depth), self.block(depth))
        if x == 5:
            return "%s %s" % (self.block(depth), self.block(depth))
        if x == 6:
            return "{ { %s } }" % self.block(depth)
        return "for (;;) { %s break; }" % self.block(depth)

    def function(self, name, depth=3):
        """int name(params): parameters are in the scope of the body"""
        r = self.r
        self.push()
        ps, args = [], []
        for n in r.sample(self.names, r.randrange(0, len(self.names))):
            t, lg, sz = r.choice(INTS)
            self.ord[-1][n] = Ent("int", n, t=t, log=lg, size=sz)
            ps.append("%s %s" % (t, n))
            args.append(self.value(sz))
        self.budget = 45
        body = self.items(depth)
        self.pop()
        return "void %s(%s) { %s }" % (name, ", ".join(ps) or "void", body), "%s(%s);" % (name, ", ".join(map(str, args)))

    def gdecl(self):
        """a file-scope declaration which needs no statements"""
        r = self.r
        n = self.name()
        x = r.randrange(6)
        if n in self.ord[-1] or n in self.late:
            return ""
        if x == 0:
            return self.decl_int(n)
        if x == 1:
            return self.decl_array(n)
        if x == 2:
            return self.decl_enum(n)
        if x == 3:
            tag = self.name()
            if tag in self.tags[-1]:
                return ""
            ms, pad = self.members()
            self.tags[-1][tag] = ("struct", ms)
            if r.random() < 0.5:
                return self.struct_text(tag, ms, pad) + ";"
            self.ord[-1][n] = Ent("struct", n, ms=ms)
            return "%s %s;" % (self.struct_text(tag, ms, pad), n)
        if x == 4:
            tag = self.name()
            e = self.look(self.tags, tag)
            if not e or e[0] != "struct":
                return ""
            self.ord[-1][n] = Ent("struct", n, ms=e[1])
            return "struct %s %s = {%s};" % (tag, n, ", ".join(str(self.value(1)) for _ in e[1]))
        self.ord[-1][n] = Ent("func", n)
        p = self.name()
        return "int %s(int %s) { return %s + %d; }" % (n, p, p, self.value(4))

    def program(self):
        """file-scope names and functions, in turns: a function sees what has been declared before it"""
        out, calls = [], []
        for i in range(self.r.randrange(2, 5)):
            for _ in range(self.r.randrange(1, 5)):
                d = self.gdecl()
                if d:
                    out.append(d)
            f, c = self.function("fn%s_%d" % (self.k, i))
            out.append(f)
            calls.append(c)
        self.budget = 3
        out.append("void entry%s(void) { %s %s }" % (self.k, " ".join(calls), " ".join(self.uses(8))))
        for n, v in self.late.items():
            out.append("int %s(int %s) { return %s + %d; }" % (n, n, n, v))
        return "\n".join(out), "entry%s" % self.k
