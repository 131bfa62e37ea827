"""Errors of meaning: the entries of the catalogue of ill-formed programs which are well-formed syntactically and hold one error each.
data/semantic.txt lists them (kind, need, text); `semgen.py --write` regenerates it from the compiler's present answers and gcc's agreement that it is an error."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import illformed as I

DATA = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "data", "semantic.txt")


def entries():
    for cat, x in I.programs_expr():
        yield "e", "-", x
    for cat, x, need in I.programs_stmt():
        yield "s", need or "-", x
    for cat, x, where in I.programs_decl():
        for w in where:
            yield w, "-", x


def alone(kind, need, x):
    if kind == "f":
        return x
    return I.function(x + (";" if kind == "e" else ""), need if need in ("v", "i") else "i")


def load():
    with open(DATA) as f:
        return [tuple(l.rstrip("\n").split("\t")) for l in f]


if __name__ == "__main__":
    from diff import Engine
    from outcome import Compiler
    from common import pmap
    cc = Compiler(Engine().umlcc)
    es = list(entries())
    outs = pmap(lambda e: cc(I.ENV + alone(*e) + "\n"), es)
    keep = [e for e, o in zip(es, outs) if o.rc == 1 and b" in resolver" in o.err and o.err.count(b"1;31merror") == 1]
    print(len(es), len(keep))
    if "--write" in sys.argv:
        with open(DATA, "w") as f:
            f.write("".join("\t".join(e) + "\n" for e in keep))
