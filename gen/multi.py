"""Programs in several files.

A program is a list of files.  A file has a text for this compiler (no `extern`: it defines every object it names) and
may be kept to other compilers (it names objects of other files)."""
import re
from proggen import Prog, Fn
from lang import NAME

LOG_PROTO = ""


class File:
    def __init__(self, text, defines, declares, foreign=False):
        self.text = text            # without the prelude of logging functions
        self.defines = defines      # names of functions and objects it defines
        self.declares = declares    # names of functions it only declares
        self.foreign = foreign      # only for other compilers


def kind(line):
    if re.match(r"(enum \w+ \{|typedef |struct \w+ \{)", line):
        return "type"
    if re.search(r"\) \{ ", line) and line.rstrip().endswith("}"):
        return "function"
    return "object"


def function_name(line):
    return re.match(r"[\w ]+?\**(\w+)\(", line).group(1)


def object_name(line):
    m = re.search(r"\(\*(\w+)\)\(", line)
    if m:
        return m.group(1)
    return re.search(r"(\w+)(\[\d+\])*( = .*)?;$", line).group(1)


def prototype(line):
    return line[:line.index(") {") + 1] + ";"


def extern(line):
    return "extern " + re.sub(r" = .*;$", ";", line)


def no_struct(f):
    return all(p[0] != "P" for p in f.params)


def uses(text, names):
    return set(re.findall(r"[A-Za-z_]\w*", text)) & names


HOSTILE = ["rax", "eax", "rsp", "rip", "al", "cl", "mov", "movl", "call", "ret", "data", "text", "globl", "zero", "L0", "L1", "LC0", "LC1", "_L0", "L_0", "st", "byte", "ptr", "offset", "quad", "ascii", "asciz", "string", "section", "size", "type", "word", "func", "label", "tmp", "bss", "rodata", "got", "plt", "PLT", "GOTPCREL", "_", "__", "_a", "f_1", "L2", "LFB0", "Lstr0", "str0", "string0", "S0", "C0"]


def program_set(r, k):
    """-> (files, entries)"""
    files, entries = [], []
    earlier = []        # (Fn, prototype) of the files before, without struct parameters
    taken = []          # names defined by the files before
    hostile = HOSTILE[:]
    r.shuffle(hostile)
    n = r.choice([2, 2, 3, 4])
    for j in range(n):
        p = Prog(r, "%d_%d" % (k, j), size=r.choice([2, 3, 4]), stmts=r.choice([4, 6, 10]))
        imported = r.sample(earlier, min(len(earlier), r.randrange(0, 5)))
        p.fns = [f for f, _ in imported]
        protos = {f.name: t for f, t in imported}
        e = "entry%d_%d" % (k, j)
        p.generate(e)
        lines = p.out[:]
        funcs = [l for l in lines if kind(l) == "function"]
        fnames = [function_name(l) for l in funcs]
        objs = [l for l in lines if kind(l) == "object"]
        onames = [object_name(l) for l in objs]
        # hostile names for some functions and objects
        ren = {}
        for x in r.sample(fnames + onames, min(len(fnames + onames), r.randrange(0, 4))):
            if x != e and x != e + "_all" and not x.startswith("dump") and hostile:
                ren[x] = hostile.pop()
        # private names shared with other files
        for x in set(re.findall(r"\b[SEKT]%d_%d_\d+\b" % (k, j), "\n".join(lines))):
            ren[x] = x[0] + "_" + x.rsplit("_", 1)[1]
        # locals named like the functions and objects of other files
        loc = sorted(set(re.findall(r"\b[li]%d_%d_\d+\b" % (k, j), "\n".join(lines))))
        others = [t for t in taken if t not in protos and t not in ren.values()]
        for x in loc:
            if others and r.random() < 0.5:
                ren[x] = others.pop(r.randrange(len(others)))
        for x in ren.values():
            # a name that now stands for something else in this file
            assert x not in protos

        def rn(t):
            return re.sub(r"[A-Za-z_]\w*", lambda m: ren.get(m.group(0), m.group(0)), t)
        clash = set(re.findall(r"[A-Za-z_]\w*", "\n".join(lines))) & set(ren.values())
        if clash:
            back = {v: q for q, v in ren.items()}
            for c in clash:
                del ren[back[c]]
        lines = [rn(l) for l in lines]
        fnames = [ren.get(x, x) for x in fnames]
        onames = [ren.get(x, x) for x in onames]
        structs = {ren.get(s.tag, s.tag) for s in p.structs}
        types = [l for l in lines if kind(l) == "type"]
        fixed = {ren.get(x, x) for x in (e, e + "_all")}
        nowhere = ["int nowhere_%d(int x);" % i for i in range(r.randrange(0, 3))]
        pr = [protos[x] for x in protos]
        r.shuffle(pr)
        # part of the functions in a file of another compiler, which names this one's objects
        away = set()
        if r.random() < 0.5:
            away = {l for l in lines if kind(l) == "function" and function_name(l) not in fixed and r.random() < 0.5}
        here = []
        for l in lines:
            here.append(prototype(l) if l in away else l)
        calls = {function_name(l) for l in away}
        nm = lambda ls: [function_name(l) for l in ls if kind(l) == "function"] + [object_name(l) for l in ls if kind(l) == "object"]
        mine = [l for l in lines if l not in away]
        files.append(File("\n".join(nowhere + pr + here) + "\n", set(nm(mine)), set(protos) | calls | {"nowhere_%d" % i for i in range(3)}))
        if away:
            there = []
            for l in lines:
                if l in away or kind(l) == "type":
                    there.append(l)
                elif kind(l) == "function":
                    there.append(prototype(l))
                else:
                    there.append(extern(l))
            files.append(File("\n".join(pr + there) + "\n", {function_name(l) for l in away}, set(), foreign=True))
        entries.append(e + "_all")
        taken += nm(lines)
        own = [f for f in p.fns if f not in [x for x, _ in imported]]
        text = {function_name(l): prototype(l) for l in lines if kind(l) == "function"}
        for f in own:
            f.name = ren.get(f.name, f.name)
            t = text[f.name]
            if no_struct(f) and not re.search(r"\b[T]_?\d*_?\d*\b|\bstruct\b", t):
                earlier.append((f, t))
    return files, entries
