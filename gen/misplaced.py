"""statement trees and lists of declarations with one thing which may be there once, or only elsewhere: jumps and
labels outside of what they belong to, and names and labels given twice, near to each other and far apart"""
import re


class Tree:
    """a random tree of statements; remembers the places at which a statement could be added, with what surrounds each"""

    def __init__(self, rnd, where):
        """where: a predicate over (loop, switch) of the place"""
        self.rnd, self.n = rnd, 0
        self.where = where

    def leaf(self, loop, switch):
        rnd = self.rnd
        return rnd.choice(["a = %d;" % rnd.randrange(9), "a++;", ";", "b = a;"] + (["break;"] if loop or switch else []) + (["continue;"] if loop else []))

    def block(self, depth, loop, switch, most=4):
        """items in braces, among which the places are"""
        rnd = self.rnd
        out = [self.stmt(depth - 1, loop, switch) for _ in range(rnd.randrange(0, most))]
        p = rnd.randrange(len(out) + 1)
        if self.where(loop, switch):
            out.insert(p, "@%d@" % self.n)
            self.n += 1
        return "{ %s }" % " ".join(out)

    def stmt(self, depth, loop, switch):
        rnd = self.rnd
        if depth <= 0 or rnd.random() < 0.15:
            return self.leaf(loop, switch)
        x = rnd.randrange(9)
        if x == 0:
            return "while (a > %d) %s" % (rnd.randrange(9), self.body(depth, True, switch))
        if x == 1:
            return "for (a = 0; a < %d; a++) %s" % (rnd.randrange(9), self.body(depth, True, switch))
        if x == 2:
            return "for (;;) %s" % self.body(depth, True, switch)
        if x in (3, 4, 5):
            return self.switch(depth, loop)
        if x == 6:
            return "if (a) %s" % self.body(depth, loop, switch)
        if x == 7:
            return "if (b) %s else %s" % (self.block(depth, loop, switch), self.body(depth, loop, switch))
        return self.block(depth, loop, switch)

    def body(self, depth, loop, switch):
        if self.rnd.random() < 0.2:
            return self.stmt(depth - 1, loop, switch)
        return self.block(depth, loop, switch)

    def switch(self, depth, loop):
        """labels distinct; a place directly within it carries the switch, by number"""
        rnd = self.rnd
        n = rnd.choice([0, 1, 1, 2, 3, 4, 6, 9]) if rnd.random() < 0.85 else rnd.choice([20, 40, 70, 150, 300])
        step = rnd.choice([1, 1, 2, 3, 7])
        vals = [i * step for i in range(n)]
        if rnd.random() < 0.5:
            rnd.shuffle(vals)
        dflt = rnd.random() < 0.5
        me = (tuple(vals), dflt)
        items = []
        for v in vals:
            items.append("case %d:" % v)
            if rnd.random() < (0.7 if n < 20 else 0.3):
                for _ in range(rnd.randrange(1, 3)):
                    items.append(self.stmt(depth - 1 if n < 20 else 0, loop, me))
            else:
                items.append(";")
        if dflt:
            # not between a label and what belongs to it
            at = [i for i in range(len(items) + 1) if i == 0 or not items[i - 1].endswith(":")]
            items.insert(rnd.choice(at), "default: ;")
        if self.where(loop, me):
            at = [i for i in range(len(items) + 1) if i == 0 or not items[i - 1].endswith(":")]
            at = [i for i in at if i > 0] or at
            for _ in range(2):
                items.insert(rnd.choice(at) if _ else len(items), "@%d@" % self.n)
                self.n += 1
                at = [i for i in range(len(items) + 1) if i == 0 or not items[i - 1].endswith(":")]
        return "switch (a) { %s }" % " ".join(items)


KINDS = {
    "continue outside of a loop": (lambda l, s: not l, lambda rnd, s: "continue;"),
    "break outside of a loop and a switch": (lambda l, s: not l and not s, lambda rnd, s: "break;"),
    "case outside of a switch": (lambda l, s: not s, lambda rnd, s: "case %d: ;" % rnd.randrange(9)),
    "default outside of a switch": (lambda l, s: not s, lambda rnd, s: "default: ;"),
    "second default": (lambda l, s: bool(s) and s[1], lambda rnd, s: "default: ;"),
    "same case again": (lambda l, s: bool(s) and len(s[0]) > 0, lambda rnd, s: "case %s: ;" % spelled(rnd, rnd.choice([rnd.choice(s[0]), s[0][0], s[0][-1]]))),
}


def spelled(rnd, v):
    return rnd.choice(["%d", "%d", "0x%x", "0%o", "%du", "%dL"]) % v


def jumps(rnd):
    """(label, text) of a function with one jump or label where it may not be; (label, None) if there was no such place"""
    label = rnd.choice(list(KINDS))
    ok, make = KINDS[label]
    seen = []

    def where(loop, switch):
        if ok(loop, switch):
            seen.append(switch)
            return True
        return False

    t = Tree(rnd, where)
    parts = [t.stmt(rnd.randrange(2, 6), False, None) for _ in range(rnd.randrange(1, 5))]
    if ok(False, None):
        parts.insert(rnd.randrange(len(parts) + 1), "@%d@" % t.n)
        t.n += 1
        seen.append(None)
    text = "int f(int a, int b) { %s return a; }\n" % " ".join(parts)
    if not t.n:
        return label, None
    k = rnd.randrange(t.n)
    # a place of a switch carries the labels of the innermost switch around it: found again by counting
    pos = text.index("@%d@" % k)
    sw = innermost(text[:pos], text)
    bad = make(rnd, sw) if label in ("second default", "same case again") and sw else make(rnd, ((0,), True))
    text = text.replace("@%d@" % k, bad)
    return label, re.sub("@[0-9]+@ ?", "", text)


def placed(rnd):
    """text of a function in which everything is where it may be"""
    t = Tree(rnd, lambda loop, switch: True)
    text = "int f(int a, int b) { %s return a; }\n" % " ".join(t.stmt(rnd.randrange(2, 6), False, None) for _ in range(rnd.randrange(1, 5)))
    return re.sub("@[0-9]+@ ?", "", text)


def innermost(before, text):
    """(labels, default) of the innermost switch open at the end of `before`"""
    stack = []
    for m in re.finditer(r"switch \(a\) \{|\{|\}", before):
        if m.group() == "}":
            stack.pop()
        else:
            stack.append((m.group() != "{", m.end()))
    for is_switch, at in reversed(stack):
        if not is_switch:
            continue
        depth, labels, dflt = 1, [], False
        for m in re.finditer(r"\{|\}|case ([0-9]+):|default:|switch", text[at:]):
            if m.group() == "{":
                depth += 1
            elif m.group() == "}":
                depth -= 1
                if depth == 0:
                    break
            elif m.group(1) and depth == 1:
                labels.append(int(m.group(1)))
            elif m.group() == "default:" and depth == 1:
                dflt = True
        if labels:
            return tuple(labels), dflt
        return (0,), dflt
    return None


def length(rnd):
    return rnd.choice([2, 3, 4, 6, 9, 15, 16, 17, 24, 31, 32, 33, 40, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300])


def twice(rnd):
    """(label, text): a name of a list declared again, at any distance"""
    n = length(rnd)
    i = rnd.choice([0, n - 2, rnd.randrange(n - 1)])
    j = rnd.choice([i + 1, n - 1, rnd.randrange(i + 1, n)])
    names = ["%s%d" % (rnd.choice("abcxyz"), q) for q in range(n)]
    names[j] = names[i]
    ty = lambda: rnd.choice(["int", "char", "long", "unsigned int", "int *", "char *"])
    one = ty()
    arr = lambda: rnd.choice(["", "", "[2]"])
    x = rnd.randrange(12)
    same = "%s, %d of %d" % ("%s", j - i, n)
    if x == 0:
        return "member", "struct S { %s };\n" % " ".join("%s %s%s;" % (ty(), q, arr()) for q in names)
    if x == 1:
        return "member of a list of declarators", "struct S { int %s; };\n" % ", ".join(q + arr() for q in names)
    if x == 2:
        return "enumerator", "enum E { %s };\n" % ", ".join(q + rnd.choice(["", " = %d" % rnd.randrange(99)]) for q in names)
    if x == 3:
        return "parameter", "int f(%s) { return 1; }\n" % ", ".join("%s %s" % (ty(), q) for q in names)
    if x == 4:
        return "local", "int f(void) { %s return 1; }\n" % " ".join("%s %s%s;" % (ty(), q, arr()) for q in names)
    if x == 5:
        return "local of a list of declarators", "int f(void) { int %s; return 1; }\n" % ", ".join(q + arr() for q in names)
    if x == 6:
        inner = " ".join("%s %s;" % (ty(), q) for q in names)
        return "local of a block", "int f(int n) { %s { %s } return 1; }\n" % (rnd.choice(["while (n)", "if (n)", "for (;;)", "switch (n) case 1:", ""]), inner)
    if x == 7:
        # a parameter and a local of the outermost block
        m = rnd.randrange(1, min(n, 13))
        return "local like a parameter", "int f(%s) { %s int %s; return 1; }\n" % (", ".join("int p%d" % q for q in range(m)), " ".join("int %s%d;" % ("l", q) for q in range(n)), "p%d" % rnd.randrange(m))
    if x == 8:
        decl = [rnd.choice(["int %s(int a) { return a; }", "char %s[4];", "struct T%d { int a; } %%s;" % q, "long %s(void);"]) % names[q] if q in (i, j) else "int %s;" % names[q] for q in range(n)]
        return "of a file", "\n".join(decl) + "\n"
    if x == 9:
        mem = ["struct %s { int a; };" % q for q in names]
        return "tag of structures", "\n".join(mem) + "\n" if rnd.random() < 0.5 else "int f(void) { %s return 1; }\n" % " ".join(mem)
    if x == 10:
        es = ["e%d" % q for q in range(n)]
        return "enumerator like a local", "int f(void) { enum E { %s } v; %s int e%d; return 1; }\n" % (", ".join(es), " ".join("int k%d;" % q for q in range(rnd.randrange(9))), rnd.randrange(n))
    vals = list(range(n))
    rnd.shuffle(vals)
    v = vals[i]
    vals[j] = v
    return "value of a case", "int f(int a) { switch (a) { %s } return a; }\n" % " ".join("case %s: %s" % (spelled(rnd, q), rnd.choice([";", "break;", "a++;", "{ a--; break; }"])) for q in vals)
