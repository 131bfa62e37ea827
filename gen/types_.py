"""Random object types of the accepted language, their declarations, and the scalar lvalues inside them."""
from lang import *

ELEMS = "ciulmqv"


class S:
    """scalar"""
    def __init__(self, t):
        self.t = t

    def decl(self, n):
        return ("%s %s" % (NAME[self.t], n)).strip()

    size = property(lambda s: SIZE[s.t])
    align = property(lambda s: SIZE[s.t])


class E(S):
    """an enum: an int"""
    def __init__(self, tag):
        self.t, self.tag = "i", tag

    def decl(self, n):
        return ("enum %s %s" % (self.tag, n)).strip()


class P:
    def __init__(self, to):
        self.to = to
    size = align = 8

    def decl(self, n):
        if isinstance(self.to, A):
            return self.to.decl("(*%s)" % n)
        return self.to.decl("*" + n)


class A:
    def __init__(self, n, of, text=None):
        self.n, self.of, self.text = n, of, text or str(n)

    def decl(self, n):
        return self.of.decl("%s[%s]" % (n, self.text))
    size = property(lambda s: s.n * s.of.size)
    align = property(lambda s: s.of.align)


class St:
    def __init__(self, tag, members, inline=False):
        self.tag, self.members = tag, members
        self.inline = inline    # written out where it is used (once)

    def body(self):
        return "{ %s }" % " ".join(t.decl(m) + ";" for m, t in self.members)

    def decl(self, n):
        if self.inline:
            return ("struct %s %s" % (self.body(), n)).strip()
        return ("struct %s %s" % (self.tag, n)).strip()

    @property
    def align(self):
        return max(t.align for _, t in self.members)

    @property
    def size(self):
        o = 0
        for _, t in self.members:
            o = (o + t.align - 1) // t.align * t.align + t.size
        a = self.align
        return (o + a - 1) // a * a


class Td:
    def __init__(self, name, t):
        self.name, self.t = name, t

    def decl(self, n):
        return ("%s %s" % (self.name, n)).strip()
    size = property(lambda s: s.t.size)
    align = property(lambda s: s.t.align)


def strip(t):
    while isinstance(t, Td):
        t = t.t
    return t


class Gen:
    def __init__(self, rnd, k, max_size=400):
        self.rnd, self.k, self.n = rnd, k, 0
        self.defs = []          # declarations, in order
        self.structs = []
        self.max_size = max_size

    def fresh(self, p):
        self.n += 1
        return "%s%d_%d" % (p, self.k, self.n)

    def scalar(self):
        if self.rnd.random() < 0.08:
            tag = self.fresh("E")
            self.defs.append("enum %s { %s, %s = %d };" % (tag, self.fresh("K"), self.fresh("K"), self.rnd.randrange(1000)))
            return E(tag)
        return S(self.rnd.choice("cccciiulmqv"))

    def array_size(self):
        rnd = self.rnd
        n = rnd.choice([1, 2, 2, 3, 3, 4, 5, 6, 7, 8, 9])
        x = rnd.random()
        if x < 0.08:
            c = self.fresh("N")
            self.defs.append("enum { %s = %d };" % (c, n))
            return n, c
        if x < 0.16:
            return n, rnd.choice(["0x%x" % n, "0%o" % n, "%dL" % n])
        return n, None

    def struct(self, depth):
        rnd = self.rnd
        tag = self.fresh("S")
        ms = []
        for j in range(rnd.choice([1, 1, 2, 2, 3, 3, 4, 5, 6, 8])):
            t = self.type(depth - 1, inline=True)
            if sum(x.size for _, x in ms) + t.size > self.max_size:
                t = self.scalar()
            ms.append(("m%d" % j, t))
        if rnd.random() < 0.15:     # refers to itself
            ms.insert(rnd.randrange(len(ms) + 1), ("self", P(St(tag, []))))
        st = St(tag, ms)
        for m, t in ms:
            if m == "self":
                t.to = st
        if rnd.random() < 0.2:
            name = self.fresh("T")
            if rnd.random() < 0.5:
                self.defs.append("typedef struct %s %s %s;" % (tag, st.body(), name))
            else:
                self.defs.append("typedef struct %s %s; struct %s %s;" % (tag, name, tag, st.body()))
            self.structs.append(st)
            return Td(name, st)
        self.defs.append("struct %s %s;" % (tag, st.body()))
        self.structs.append(st)
        return st

    def type(self, depth, inline=False):
        rnd = self.rnd
        x = rnd.random()
        if depth <= 0 or x < 0.4:
            t = self.scalar()
        elif x < 0.5:
            t = P(self.pointee(depth - 1))
        elif x < 0.75:
            of = self.type(depth - 1, inline)
            n, text = self.array_size()
            if n * of.size > self.max_size:
                n, text = 2, None
            t = A(n, of, text)
            if t.size > self.max_size:
                t = self.scalar()
        elif self.structs and rnd.random() < 0.3:
            t = rnd.choice(self.structs)
        elif inline and rnd.random() < 0.25:
            ms = [("n%d" % j, self.type(depth - 1, True)) for j in range(rnd.randrange(1, 4))]
            t = St(None, ms, inline=True)
            if t.size > self.max_size:
                t = self.scalar()
        else:
            t = self.struct(depth)
        if rnd.random() < 0.1 and not (isinstance(t, St) and t.inline):
            name = self.fresh("T")
            self.defs.append("typedef %s;" % t.decl(name))
            t = Td(name, t)
        return t

    def pointee(self, depth):
        rnd = self.rnd
        x = rnd.random()
        if x < 0.5 or depth < 0:
            return S(rnd.choice(ELEMS))
        if x < 0.7:
            return P(self.pointee(depth - 1))
        if x < 0.85 and self.structs:
            return rnd.choice(self.structs)
        if x < 0.95:
            return A(rnd.randrange(2, 5), S(rnd.choice(ELEMS)))
        return self.struct(1)


def paths(t, text, primary=True, pointer_leaves=True):
    """all scalar lvalues of an object: (path pieces, scalar letter | 'p'); pieces are ('.', m) or ('[', i, n)"""
    t = strip(t)
    if isinstance(t, S):
        yield (), t.t
    elif isinstance(t, P):
        if pointer_leaves:
            yield (), "p"
    elif isinstance(t, A):
        for i in range(t.n):
            for p, l in paths(t.of, text):
                yield (("[", i, t.n),) + p, l
    else:
        for m, mt in t.members:
            for p, l in paths(mt, text):
                yield ((".", m),) + p, l


def spell(rnd, base, is_ptr, path, index):
    """C text of the lvalue; base is a primary expression, a pointer to the object if is_ptr.
    index(i) gives the text of an integer expression with value i."""
    e = base
    for step in path:
        if step[0] == ".":
            m = step[1]
            if is_ptr:
                e = rnd.choice(["%s->%s", "%s->%s", "(*%s).%s", "%s[0].%s", "(%s + 0)->%s"]) % (e, m)
            else:
                e = "%s.%s" % (e, m)
            is_ptr = False
        else:
            i = step[1]
            if is_ptr:
                e = rnd.choice(["(*%s)", "%s[0]"]) % e
                is_ptr = False
            x = rnd.random()
            if x < 0.6:
                e = "%s[%s]" % (e, index(i))
            elif x < 0.8:
                e = "(*(%s + %s))" % (e, index(i))
            elif x < 0.87:
                e = "(*(%s + %s))" % (index(i), e)
            elif x < 0.93:
                e = "(%s + %d)[%s]" % (e, 1, index(i - 1)) if i > 0 else "%s[%s]" % (e, index(i))
            else:
                j = step[2]
                e = "(*(%s + %d - %s))" % (e, j, index(j - i))
    if is_ptr:
        e = "(*%s)" % e
    return e
