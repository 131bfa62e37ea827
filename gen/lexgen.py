"""Source texts for the tokeniser: a reference tokeniser, respacing, operator runs, literals, identifiers."""
import re

# C99 tokens of the accepted language; anything else is an error
PUNCT = ["<<=", ">>=", "->", "++", "--", "<<", ">>", "<=", ">=", "==", "!=", "&&", "||", "*=", "/=", "%=", "+=", "-=", "&=", "^=", "|=",
         "[", "]", "(", ")", "{", "}", ".", "&", "*", "+", "-", "~", "!", "/", "%", "<", ">", "^", "|", "?", ":", ";", "=", ","]
KEYWORDS = ["break", "case", "char", "continue", "default", "else", "enum", "for", "if", "int", "long", "return", "sizeof", "struct", "switch", "typedef", "unsigned", "void", "while"]
RESERVED = ["auto", "const", "do", "double", "extern", "float", "goto", "inline", "register", "restrict", "short", "signed", "static", "union", "volatile", "_Bool", "_Complex", "_Imaginary"]
WS = " \t\n\v\f"
PPNUM = re.compile(r"\.?[0-9](?:[eEpP][+-]|[0-9A-Za-z_.])*")
INT = re.compile(r"(?:0[xX][0-9a-fA-F]+|0[0-7]*|[1-9][0-9]*)(?:[uU](?:l|L|ll|LL)?|(?:l|L|ll|LL)[uU]?)?\Z")
IDENT = re.compile(r"[A-Za-z_][A-Za-z_0-9]*")
STR = re.compile(r'"(?:\\(?:[\'"?\\abfnrtv]|[0-7]{1,3}|x[0-9a-fA-F]+)|[^"\\\n])*"')
CHR = re.compile(r"'(?:\\(?:[\'\"?\\abfnrtv]|[0-7]{1,3}|x[0-9a-fA-F]+)|[^'\\\n])+'")
OPS = re.compile("|".join(re.escape(p) for p in sorted(PUNCT, key=len, reverse=True)))


class Bad(Exception):
    pass


def tokens(s):
    """-> list of tokens; raises Bad where C finds none of the accepted language"""
    out, i = [], 0
    while i < len(s):
        if s[i] in WS:
            i += 1
            continue
        if s.startswith("/*", i) or s.startswith("//", i):
            raise Bad("comment")
        m = PPNUM.match(s, i)
        if m:
            if not INT.match(m.group()):
                raise Bad(m.group())
        else:
            m = IDENT.match(s, i)
            if m:
                if m.group() in RESERVED:
                    raise Bad(m.group())
            else:
                m = STR.match(s, i) or CHR.match(s, i) or OPS.match(s, i)
        if not m:
            raise Bad(s[i])
        out.append(m.group())
        i = m.end()
    return out


def needs_space(a, b):
    """would a and b written together be other tokens?"""
    try:
        return tokens(a + b) != [a, b]
    except Bad:
        return True


_cache = {}


def glue(a, b):
    k = (a, b)
    if k not in _cache:
        if len(_cache) > 200000:
            _cache.clear()
        _cache[k] = needs_space(a, b)
    return _cache[k]


def tight(ts):
    """no white space but where tokens would run together"""
    out = []
    for a, b in zip(ts, ts[1:] + [None]):
        out.append(a)
        if b is not None and glue(a, b):
            out.append(" ")
    return "".join(out)


def blank(r, most=3):
    return "".join(r.choice(WS) for _ in range(r.randrange(1, most + 1)))


def respaced(r, ts, style):
    if style == "tight":
        return tight(ts)
    if style == "lines":
        return "\n".join(ts)
    if style == "one":
        c = r.choice(WS)
        return c.join(ts)
    if style == "wide":
        i = r.randrange(len(ts))
        return " ".join(ts[:i]) + r.choice(WS) * r.randrange(500, 40000) + " ".join(ts[i:])
    out = [blank(r)] if r.random() < 0.5 else []
    for a, b in zip(ts, ts[1:] + [None]):
        out.append(a)
        if b is None:
            if r.random() < 0.5:
                out.append(blank(r))
        elif glue(a, b) or r.random() < 0.5:
            out.append(blank(r))
    return "".join(out)


STYLES = ["tight", "lines", "one", "wide", "mixed"]

# ---- literals
SIMPLE = {"'": 39, '"': 34, "?": 63, "\\": 92, "a": 7, "b": 8, "f": 12, "n": 10, "r": 13, "t": 9, "v": 11}


def spell_byte(r, v, follow, quote):
    """one spelling of byte v in a literal; follow: what may come next (a later character), None if the end"""
    ways = []
    c = chr(v)
    if v not in (0, 10, 92) and c != quote and not (c == "?" and follow == "?"):     # no trigraphs
        ways += ["raw"] * 3
    ways += ["oct3", "hex"]
    for k, x in SIMPLE.items():
        if x == v:
            ways += ["simple:" + k] * 2
    nxt = follow
    if nxt is None or nxt not in "01234567":
        ways.append("octs")
    w = r.choice(ways)
    if w == "raw":
        return c
    if w == "oct3":
        return "\\%03o" % v
    if w == "octs":
        return "\\%o" % v
    if w == "hex":
        if nxt is not None and nxt in "0123456789abcdefABCDEF":
            return "\\%03o" % v
        h = r.choice(["%x", "%X", "%02x", "%02X", "%04x", "%012x"]) % v
        return "\\x" + h
    return "\\" + w[7:]


def spell_string(r, bs):
    """a spelling of the bytes as a string literal; built from the end so that an escape sees what follows"""
    out, follow = [], None
    for v in reversed(bs):
        t = spell_byte(r, v, follow, '"')
        out.append(t)
        follow = t[0]
    return '"' + "".join(reversed(out)) + '"'


def plain_string(bs):
    return '"' + "".join("\\%03o" % v for v in bs) + '"'
