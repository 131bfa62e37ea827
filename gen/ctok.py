"""Tokens of generated programs, and small random edits of token sequences."""
import re

TOK = re.compile(r'''[A-Za-z_]\w*|0[xX][0-9a-fA-F]+\w*|\d+\w*|"(?:\\.|[^"\\])*"|'(?:\\.|[^'\\])*'|<<=|>>=|->|\+\+|--|<<|>>|<=|>=|==|!=|&&|\|\||[-+*/%&|^]=|.''', re.S)
POOL = ["int", "char", "long", "unsigned", "void", "struct", "enum", "typedef", "if", "else", "while", "for", "return", "break", "continue", "switch", "case", "default", "sizeof",
        "(", ")", "{", "}", "[", "]", ";", ",", ":", "?", "+", "-", "*", "/", "%", "&", "|", "^", "~", "!", "=", "==", "<", ">>", "++", "--", "->", ".", "&&", "||", "+=", "0", "1", "5", "'a'", '"s"', "zz"]


def tokens(text):
    return [t for t in TOK.findall(text) if not t.isspace()]


def join(ts):
    return " ".join(ts) + "\n"


def edit(r, ts):
    ts = list(ts)
    i = r.randrange(len(ts))
    x = r.random()
    if x < 0.25:
        del ts[i]
    elif x < 0.4:
        ts.insert(i, ts[i])
    elif x < 0.6:
        ts[i] = r.choice(ts)
    elif x < 0.75:
        ts[i] = r.choice(POOL)
    elif x < 0.88:
        ts.insert(i, r.choice(POOL))
    else:
        k = r.randrange(len(ts))
        ts[i], ts[k] = ts[k], ts[i]
    return join(ts)
