"""The arithmetic types of the accepted language and C's conversion rules on them."""
TYPES = "ciulmqv"
NAME = {"c": "char", "i": "int", "u": "unsigned int", "l": "long", "m": "unsigned long",
        "q": "long long", "v": "unsigned long long", "z": "void"}
SIZE = {"c": 1, "i": 4, "u": 4, "l": 8, "m": 8, "q": 8, "v": 8}
SIGNED = {"c": 1, "i": 1, "u": 0, "l": 1, "m": 0, "q": 1, "v": 0}
RANK = {"c": 0, "i": 1, "u": 1, "l": 2, "m": 2, "q": 3, "v": 3}
UNSIGNED_OF = {"i": "u", "l": "m", "q": "v", "u": "u", "m": "m", "v": "v"}
SUFFIX = {"i": "", "u": "U", "l": "L", "m": "UL", "q": "LL", "v": "ULL"}

ARITH = ["+", "-", "*", "/", "%"]
BIT = ["&", "|", "^"]
SHIFT = ["<<", ">>"]
REL = ["<", ">", "<=", ">=", "==", "!="]
LOGIC = ["&&", "||"]
BINARY = ARITH + BIT + SHIFT + REL + LOGIC
ASSIGN = ["+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>"]
UNARY = ["+", "-", "~", "!"]


def promote(t):
    return "i" if t == "c" else t


def common(a, b):
    a, b = promote(a), promote(b)
    if a == b:
        return a
    if SIGNED[a] == SIGNED[b]:
        return a if RANK[a] > RANK[b] else b
    s, u = (a, b) if SIGNED[a] else (b, a)
    if RANK[u] >= RANK[s]:
        return u
    if SIZE[s] > SIZE[u]:
        return s
    return UNSIGNED_OF[s]


def result(op, a, b):
    if op in REL or op in LOGIC:
        return "i"
    if op in SHIFT:
        return promote(a)
    return common(a, b)


def wrap(t, v):
    bits = 8 * SIZE[t]
    v &= (1 << bits) - 1
    if SIGNED[t] and v >> (bits - 1):
        v -= 1 << bits
    return v


def literal(t, v):
    """Source text of a constant of type t (t != 'c') with the value v, parenthesised if negative."""
    v = wrap(t, v)
    if t == "c":
        return "(char)%d" % v if v >= 0 else "(char)(%d)" % v
    if v < 0:
        lo = -(1 << (8 * SIZE[t] - 1))
        if v == lo:
            return "(-%d%s - 1%s)" % (-(v + 1), SUFFIX[t], SUFFIX[t])
        return "(-%d%s)" % (-v, SUFFIX[t])
    return "%d%s" % (v, SUFFIX[t])


BOUND = {
    "c": [0, 1, 2, 3, 0x7f, -128, -1, -2, 0x41],
    4: [0, 1, 2, 3, 5, 7, 8, 10, 31, 100, 0x7f, 0x80, 0xff, 0x100, 0x7fffffff, -0x80000000, -1, -2, -128, 0x55555555],
    8: [0, 1, 2, 3, 5, 7, 8, 10, 31, 63, 100, 0x80, 0xff, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000, 0x7fffffffffffffff,
        -0x8000000000000000, -1, -2, -0x80000000, 0x5555555555555555, 0x123456789abcdef],
}


def bounds(t):
    return BOUND["c"] if t == "c" else BOUND[SIZE[t]]
