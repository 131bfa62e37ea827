"""pairs of derived types that differ in one place, and the places where types have to agree"""
import copy

BASE = ["int", "unsigned int", "long", "unsigned long", "long long", "unsigned long long", "char", "struct PA", "struct PB", "UA", "UB", "void", "unsigned", "long int", "int long unsigned"]
SAME = [{"unsigned int", "unsigned"}, {"long", "long int"}, {"unsigned long", "int long unsigned"}]
ENV = ("struct PA { int a; char *b; }; struct PB { int a; char *b; };\ntypedef struct { int a; char *b; } UA; typedef struct { int a; char *b; } UB;\n"
       "int gz;\n")


def base(r, void=True):
    while True:
        b = r.choice(BASE)
        if b != "void" or void:
            return ["b", b]


def gen(r, depth, where="pointee"):
    """where: pointee (anything), element (complete object), result, param"""
    x = r.random()
    if depth <= 0 or x < 0.12:
        b = base(r, where in ("pointee", "result"))
        if where in ("result", "param", "element") and b[1] in ("struct PA", "struct PB", "UA", "UB"):
            return ["p", b]
        return b
    if x < 0.5 or where in ("result", "param") and x < 0.75:
        return ["p", gen(r, depth - 1)]
    if x < 0.68 and where in ("pointee", "element", "param"):
        return ["a", r.choice([1, 2, 3, 4, 7, 10]), gen(r, depth - 1, "element")]
    if where == "pointee":
        return ["f", gen(r, depth - 1, "result"), [gen(r, depth - 2, "param") for _ in range(r.randrange(0, 4))]]
    return ["p", ["f", gen(r, depth - 2, "result"), [gen(r, depth - 2, "param") for _ in range(r.randrange(0, 4))]]]


def decl(t, name, inner=False):
    k = t[0]
    if k == "b":
        return "%s %s" % (t[1], name)
    if k == "p":
        n = "*" + name
        if t[1][0] in "af":
            n = "(" + n + ")"
        return decl(t[1], n)
    if k == "a":
        return decl(t[2], "%s[%d]" % (name, t[1]))
    return decl(t[1], "%s(%s)" % (name, ", ".join(decl(p, "q%d" % i) for i, p in enumerate(t[2])) or "void"))


def nodes(t, path=()):
    yield path, t
    if t[0] == "p":
        yield from nodes(t[1], path + (1,))
    elif t[0] == "a":
        yield from nodes(t[2], path + (2,))
    elif t[0] == "f":
        yield from nodes(t[1], path + (1,))
        for i, p in enumerate(t[2]):
            yield from nodes(p, path + (2, i))


def at(t, path):
    for i in path:
        t = t[i]
    return t


def mutate(r, t):
    """one change somewhere; the result need not be ill-matched (the reference decides)"""
    t = copy.deepcopy(t)
    path, n = r.choice(list(nodes(t)))
    x = r.random()
    new = None
    if n[0] == "b":
        new = ["b", r.choice(BASE)] if x < 0.7 else ["p", n]
    elif n[0] == "p":
        new = n[1] if x < 0.3 and n[1][0] in "pb" else ["p", n] if x < 0.6 else ["p", gen(r, 1)]
    elif n[0] == "a":
        new = ["a", n[1] + r.choice([1, 2, -1, 8]) or 5, n[2]] if x < 0.6 else ["a", n[1], ["a", 2, n[2]]] if x < 0.8 else n[2]
        if new[0] == "a" and new[1] < 1:
            new[1] = 9
    else:
        ps = n[2][:]
        if x < 0.35:
            ps.insert(r.randrange(len(ps) + 1), gen(r, 1, "param"))
        elif x < 0.6 and ps:
            ps.pop(r.randrange(len(ps)))
        elif x < 0.8 and len(ps) > 1:
            i, j = r.sample(range(len(ps)), 2)
            ps[i], ps[j] = ps[j], ps[i]
        elif ps:
            ps[r.randrange(len(ps))] = gen(r, 1, "param")
        else:
            ps = [["b", "int"]]
        new = ["f", n[1], ps]
    if not path:
        return new
    at(t, path[:-1])[path[-1]] = new
    return t


# A is declared with the first type, B with the second; both are pointers
PLACES = [("assignment", "@A; @B; int m_(void) { A = B; return 0; }"),
          ("local assignment", "int m_(void) { @A; @B; A = B; return 0; }"),
          ("initializer", "@B; int m_(void) { @A = B; return 0; }"),
          ("argument", "int g_(@A); @B; int m_(void) { return g_(B); }"),
          ("argument through a pointer", "int (*g_)(@A); @B; int m_(void) { return g_(B); }"),
          ("second argument", "int g_(int z, @A); @B; int m_(void) { return g_(1, B); }"),
          ("comparison", "@A; @B; int m_(void) { return A == B; }"),
          ("unequal", "@A; @B; int m_(void) { if (A != B) return 1; return 0; }"),
          ("relation", "@A; @B; int m_(void) { return A < B; }"),
          ("difference", "@A; @B; int m_(void) { return A - B; }"),
          ("results of ?:", "@A; @B; int m_(void) { gz ? A : B; return 0; }"),
          ("member", "struct M { int q; @A; }; struct M v; @B; int m_(void) { v.A = B; return 0; }"),
          ("member through a pointer", "struct M { int q; @A; struct M *n; }; struct M *v; @B; int m_(void) { v->n->A = B; return 0; }"),
          ("pointer to it", "@A; @B; int m_(void) { return &A == &B; }"),
          ("parameter", "int m_(@A, @B) { A = B; return 0; }"),
          ("typedefs", "typedef @A; typedef @B; A a_; B b_; int m_(void) { a_ = b_; return 0; }"),
          ("pointers to typedefs", "typedef @A; typedef @B; A *a_; B *b_; int m_(void) { a_ = b_; return 0; }"),
          ("arrays of typedefs", "typedef @A; typedef @B; A a_[3]; int m_(void) { B *b_; b_ = a_; return 0; }"),
          ("parameters of typedefs", "typedef @A; typedef @B; int (*a_)(A x, int y); int (*b_)(B x, int y); int m_(void) { a_ = b_; return 0; }"),
          ("results of typedefs", "typedef @A; typedef @B; A (*a_)(int y); B f_(int y); int m_(void) { a_ = &f_; return 0; }"),
          ("initializers of an array", "typedef @A; @B; int m_(void) { A l_[2] = {B, B}; return 0; }"),
          ("initializers of a struct", "struct M { int q; @A; }; @B; int m_(void) { struct M l_ = {1, B}; return 0; }"),
          ("nested typedefs", "typedef @A; typedef A *A2; typedef @B; typedef B *B2; int m_(void) { A2 (*a_)[2]; B2 (*b_)[2]; a_ = b_; return 0; }"),
          ("return", "typedef @A; @B; A m_(void) { return B; }"),
          ("return of a parameter", "typedef @A; A m_(int z, @B) { return B; }")]


def pair(r, same=None):
    """(label, program text, whether the types are the same)"""
    t = ["p", gen(r, r.choice([1, 2, 3, 4]))]
    same = r.random() < 0.25 if same is None else same
    u = t if same else mutate(r, t)
    label, pl = r.choice(PLACES)
    return label, ENV + pl.replace("@A", decl(t, "A")).replace("@B", decl(u, "B")) + "\n", same
