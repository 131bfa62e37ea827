"""One compilation, observed from outside: exit status, diagnostics, assembly."""
import hashlib, itertools, os, threading
from common import *

_n = itertools.count()


class Outcome:
    __slots__ = ("rc", "err", "asm", "timeout")

    def __init__(self, rc, err, asm, timeout):
        self.rc, self.err, self.asm, self.timeout = rc, err, asm, timeout

    def same(self, o, diagnostics=False):
        return self.rc == o.rc and self.asm == o.asm and (not diagnostics or self.err == o.err)

    def text(self):
        return "status %s, %s, %s" % (self.rc, "no assembly" if self.asm is None else "%d bytes of assembly" % len(self.asm), self.err[:300].decode("latin-1").strip() or "no diagnostics")


def as_bytes(t):
    return t if isinstance(t, bytes) else t.encode("latin-1")


class Compiler:
    def __init__(self, umlcc):
        self.umlcc = umlcc
        self.dir = subdir("oc%d" % next(_n))

    def __call__(self, text, name=None, env=None, wrap=(), timeout=60):
        d = None
        if name is None:
            p = os.path.join(self.dir, "p%d.c" % next(_n))
        else:
            p = name
        with open(p, "wb") as f:
            f.write(as_bytes(text))
        asm = p[:-2] + ".s"
        r = run(list(wrap) + [self.umlcc, p], timeout=timeout, env=env)
        out = None
        if os.path.exists(asm):
            with open(asm, "rb") as f:
                out = f.read()
            os.unlink(asm)
        os.unlink(p)
        return Outcome(r.rc, r.err, out, r.timeout or r.rc in (-9, -24))


def first_difference(a, b):
    """a short account of where two assembly texts differ"""
    if a is None or b is None:
        return "one of them has no assembly"
    for i, (x, y) in enumerate(itertools.zip_longest(a.split(b"\n"), b.split(b"\n"))):
        if x != y:
            return "line %d: %r against %r" % (i + 1, x, y)
    return "no difference"
