"""Differential trace monitor.

A case is a program fragment in the language the compiler accepts plus, optionally, host C code.
It is compiled by the compiler under test and by two reference compilers; each build runs against
the event-log runtime in rt/, and the recorded event logs are compared sub-case by sub-case.
A sub-case counts only where both references agree and the undefined-behaviour monitor of the
reference build stayed silent.  A difference is reported only if the case alone reproduces it.
"""
import os, shutil, threading
from common import *

PRELUDE = """void log_c(char v);
void log_i(int v);
void log_u(unsigned int v);
void log_l(long v);
void log_m(unsigned long v);
void log_q(long long v);
void log_v(unsigned long long v);
int ev(int id);
int ev2(int id, int r);
char evc(int id, char r);
long evl(int id, long r);
void log_s(char *s);
void log_b(char *p, int n);
void dirty(void);
"""

MARKERS = ("BEGIN", "END", "UB")


class Case:
    """u: text for the compiler under test (and the references); h: host C, always gcc.
    entry: a void(void) function of u (called through the ABI monitor) or of h (host_entry).
    ref: the same program spelled otherwise, for the references."""
    __slots__ = ("u", "h", "entry", "host_entry", "stateful", "may_reject", "tag", "extra_u", "_ref")

    def __init__(self, u, entry, h="", host_entry=False, stateful=True, may_reject=False, tag="", extra_u=(), ref=None):
        self.u, self.h, self.entry, self.host_entry = u, h, entry, host_entry
        self.stateful, self.may_reject, self.tag = stateful, may_reject, tag
        self.extra_u = extra_u  # further translation units
        self._ref = ref

    @property
    def ref(self):
        return self.u if self._ref is None else self._ref


def host_source(cases):
    out = ['#include "rt.h"\n']
    tab = []
    for k, c in enumerate(cases):
        out.append("/* case %d */\n%s\n" % (k, c.h))
        if c.host_entry:
            tab.append("    %s,\n" % c.entry)
        else:
            out.append("extern void %s(void);\nstatic void w_%d_(void) { static const u64 a[6]; "
                       "abi_call((void *)%s, a, 0); }\n" % (c.entry, k, c.entry))
            tab.append("    w_%d_,\n" % k)
    out.append("const case_fn cases[] = {\n%s};\nconst int n_cases = %d;\n" % ("".join(tab), len(cases)))
    return "".join(out)


class Built:
    """How one build of a batch went: status ok | reject | crash | timeout | asm | link."""

    def __init__(self, status, detail="", exe=None):
        self.status, self.detail, self.exe = status, detail, exe


class Engine:
    def __init__(self, umlcc=None):
        d = subdir("rt")
        self.umlcc = umlcc or build("plain")
        self.rt = [cc_obj(os.path.join(RT, f), os.path.join(d, f + ".o"))
                   for f in ("rt.c", "abi.S", "rt_ub.c")]
        self.n = 0
        self.lock = threading.Lock()

    def newdir(self):
        with self.lock:
            self.n += 1
            return subdir("d%06d" % self.n)

    # ---- builds
    def write(self, d, cases):
        for name, texts in (("prog", [c.u for c in cases]), ("prog_ref", [c.ref for c in cases])):
            with open(os.path.join(d, name + ".c"), "w", encoding="latin-1", newline="") as f:
                f.write(PRELUDE)
                for t in texts:
                    f.write(t)
                    if not t.endswith("\n"):
                        f.write("\n")
        extra = []
        for k, c in enumerate(cases):
            for j, t in enumerate(c.extra_u):
                n = "tu%d_%d" % (k, j)
                extra.append(n)
                with open(os.path.join(d, n + ".c"), "w", encoding="latin-1") as f:
                    f.write(PRELUDE + t)
        with open(os.path.join(d, "host.c"), "w") as f:
            f.write(host_source(cases))
        return extra

    def host(self, d):
        must(["gcc", "-w", "-O1", "-fwrapv", "-fno-strict-aliasing", "-fno-delete-null-pointer-checks", "-I", RT,
              "-c", os.path.join(d, "host.c"), "-o", os.path.join(d, "host.o")], "host code of a case")

    def compile_umlcc(self, src):
        """-> Built with status ok (the .s exists) or what went wrong"""
        for attempt in (0, 1):
            r = run([self.umlcc, src], timeout=120, cpu=60)
            if not r.timeout:
                break
        if r.timeout or r.rc in (-9, -24):
            return Built("timeout", "compiler did not finish within 60 s of CPU time, twice")
        asm = src[:-2] + ".s"
        if r.rc == 0:
            if not os.path.exists(asm):
                return Built("crash", "exit status 0 without an output file")
            return Built("ok")
        msg = r.err.decode("latin-1")[-600:]
        if r.rc == 1 and msg.strip() and not os.path.exists(asm):
            return Built("reject", msg)
        return Built("crash", "compiler ended with status %d: %s" % (r.rc, msg))

    def build_umlcc(self, d, extra):
        objs = []
        for n in ["prog"] + extra:
            b = self.compile_umlcc(os.path.join(d, n + ".c"))
            if b.status != "ok":
                return b
            r = run(["as", os.path.join(d, n + ".s"), "-o", os.path.join(d, n + ".o")], timeout=120)
            if r.timeout:
                raise HarnessError("assembler timed out")
            if r.rc != 0:
                return Built("asm", r.err.decode("latin-1")[:600])
            objs.append(os.path.join(d, n + ".o"))
        exe = os.path.join(d, "t.exe")
        r = run(["gcc", "-z", "noexecstack"] + objs + [os.path.join(d, "host.o")] + self.rt + ["-o", exe], timeout=120)
        if r.timeout:
            raise HarnessError("linker timed out")
        if r.rc != 0:
            return Built("link", r.err.decode("latin-1")[:800])
        return Built("ok", "", exe)

    def build_ref(self, d, extra, which):
        objs = []
        for n in ["prog"] + extra:
            o = os.path.join(d, "%s.%s.o" % (n, which))
            if which == "clang":
                cmd = ["clang", "-std=gnu99", "-w", "-O0", "-fno-strict-aliasing", "-fsanitize=undefined",
                       "-fno-sanitize=function", "-fsanitize-minimal-runtime", "-c"]
            else:
                cmd = ["gcc", "-std=gnu99", "-w", "-O0", "-fwrapv", "-fno-strict-aliasing", "-c"]
            src = os.path.join(d, ("prog_ref" if n == "prog" else n) + ".c")
            r = run(cmd + [src, "-o", o], timeout=300)
            if r.rc != 0 or r.timeout:
                raise HarnessError("reference %s refuses a generated program: %s\n%s" % (
                    which, src, r.err.decode("latin-1")[:1500]))
            objs.append(o)
        exe = os.path.join(d, "r_%s.exe" % which)
        must(["gcc", "-z", "noexecstack"] + objs + [os.path.join(d, "host.o")] + self.rt + ["-o", exe],
             "link reference")
        return exe

    # ---- executions
    def execute(self, exe, n):
        """-> list of traces; trace: list of (sub, kind, value-hex); a dead process marks its case."""
        traces = [None] * n
        start, deaths = 0, 0
        while start < n:
            r = run([exe, str(start)], timeout=600, mem=None)
            if r.timeout:
                raise HarnessError("a monitored run did not end: %s" % exe)
            cur, last, ended = None, start - 1, False
            for line in r.out.decode("latin-1").split("\n"):
                f = line.split(" ")
                if len(f) != 4:
                    continue
                try:
                    k, s = int(f[0]), int(f[1])
                except ValueError:
                    continue
                if not 0 <= k < n:
                    continue
                if f[2] == "BEGIN":
                    cur = traces[k] = []
                    last, ended = k, False
                elif f[2] == "END":
                    ended = True
                elif cur is not None and k == last:
                    cur.append((s, f[2], f[3]))
            if last < start:
                # died before the first case began
                traces[start] = [(0, "DIED", "%d" % r.rc)]
                start += 1
            elif not ended:
                traces[last].append((10 ** 9, "DIED", "%d" % r.rc))
                start = last + 1
            else:
                start = last + 1
                if r.rc == 0:
                    break
            deaths += 1
            if deaths > 60:
                break
        for k in range(n):
            if traces[k] is None:
                traces[k] = [(0, "DIED", "not reached")]
        return traces

    @staticmethod
    def subs(trace):
        out = {}
        for s, kind, v in trace:
            out.setdefault(s, []).append((kind, v))
        return out

    def compare(self, case, tu, tc, tg):
        """-> (evaluated sub list, first difference or None, excluded)"""
        su, sc, sg = self.subs(tu), self.subs(tc), self.subs(tg)
        good, excluded = [], 0
        for s in sorted(sc):
            c = sc[s]
            if any(k in ("UB", "CRASH", "HANG", "DIED", "ALIGN", "SAVED") for k, _ in c) or c != sg.get(s):
                excluded += 1
                if case.stateful:
                    # what follows may depend on it
                    excluded += sum(1 for x in sc if x > s)
                    return good, None, excluded
                continue
            if su.get(s) != c:
                return good, (s, su.get(s, []), c, tu), excluded
            good.append((s, c))
        if excluded == 0:
            for s in sorted(su):
                if s not in sc:
                    return good, (s, su[s], [], tu), excluded
        return good, None, excluded

    # ---- one batch
    def batch(self, cases):
        """-> list of (case, kind, detail, good subs, excluded); kind None | reject | crash | asm | link | trace"""
        d = self.newdir()
        try:
            extra = self.write(d, cases)
            self.host(d)
            b = self.build_umlcc(d, extra)
            if b.status != "ok":
                if len(cases) == 1:
                    self.build_ref(d, extra, "clang")   # a program the references refuse is our mistake
                    return [(cases[0], b.status, b.detail, [], 0)]
                # split: find the cases responsible
                mid = len(cases) // 2
                return self.batch(cases[:mid]) + self.batch(cases[mid:])
            exes = [b.exe, self.build_ref(d, extra, "clang"), self.build_ref(d, extra, "gcc")]
            tu, tc, tg = [self.execute(e, len(cases)) for e in exes]
            res = []
            for k, c in enumerate(cases):
                good, diff, exc = self.compare(c, tu[k], tc[k], tg[k])
                if diff:
                    s, got, want, _ = diff
                    res.append((c, "trace", "sub-case %d: compiled program logged %s, C semantics gives %s" %
                                (s, fmt(got), fmt(want)), good, exc))
                else:
                    res.append((c, None, "", good, exc))
            return res
        finally:
            shutil.rmtree(d, True)

    def replay_files(self, cases):
        files = {"host.c": host_source(cases), "prog.c": PRELUDE + "".join(c.u + "\n" for c in cases)}
        if any(c.ref != c.u for c in cases):
            files["ref_prog.c"] = (PRELUDE + "".join(c.ref + "\n" for c in cases)).encode("latin-1")
        names = ["prog"]
        for k, c in enumerate(cases):
            for j, t in enumerate(c.extra_u):
                files["tu%d_%d.c" % (k, j)] = PRELUDE + t
                names.append("tu%d_%d" % (k, j))
        files["prog.c"] = files["prog.c"].encode("latin-1")
        files["run.sh"] = """#!/bin/bash
# builds and runs this case with the compiler under test and with gcc, and prints both event logs
D=$(cd "$(dirname "$0")" && pwd); V=${VERIF:-/verif}; U=${UMLCC:-/repo/_build/bin/umlcc}
T=$(mktemp -d); cp $D/*.c $T; cd $T
O=; G=; for n in %s; do $U $n.c && as $n.s -o $n.o; O="$O $n.o"; if [ -f ref_$n.c ]; then G="$G ref_$n.c"; else G="$G $n.c"; fi; done
gcc -w -O1 -fwrapv -I$V/rt -c host.c -o host.o
gcc -w $O host.o $V/rt/rt.c $V/rt/abi.S $V/rt/rt_ub.c -I$V/rt -o u.exe && ./u.exe > u.log
gcc -std=gnu99 -w -O0 -fwrapv -fno-strict-aliasing $G host.o $V/rt/rt.c $V/rt/abi.S $V/rt/rt_ub.c -I$V/rt -o g.exe && ./g.exe > g.log
diff u.log g.log > d.log; R=$?; head -40 d.log; cd /; rm -rf "$T"; exit $R
""" % " ".join(names)
        return files

    def evaluate(self, ck, cases, size=60, min_good=0.5):
        """Run all cases; report violations to ck."""
        groups = [cases[i:i + size] for i in range(0, len(cases), size)]
        total_good = total_exc = 0
        for res, grp in zip(pmap(self.batch, groups), groups):
            for c, kind, detail, good, exc in res:
                total_good += len(good)
                total_exc += exc
                ck.count("subcases_excluded_ub_or_disagreement", exc)
                if c.tag:
                    ck.count("cases:" + c.tag)
                for s, events in good:
                    nt = [e for e in events]
                    ck.observe((c.u, c.h, s) if nt else None)
                    ck.count("events_compared", len(events))
                if good:
                    ck.sample("%s\n  observed: %s" % (c.u.strip()[:900], fmt(good[0][1])))
                if kind is None:
                    continue
                if kind == "timeout":
                    ck.inconclusive += 1
                    continue
                if kind == "reject" and c.may_reject:
                    ck.count("clean_refusals")
                    ck.observe((c.u, "refused"))
                    continue
                if len(ck.violations) >= 6:
                    ck.count("further_failing_cases")
                    continue
                # confirm alone
                solo = self.batch([c])[0]
                if solo[1] is not None and solo[1] != "timeout" and not (solo[1] == "reject" and c.may_reject):
                    ck.violation("%s: %s\n%s" % (LABEL[solo[1]], solo[2], c.u.strip()[:1200]),
                                 self.replay_files([c]), key=(c.tag, solo[1], c.u))
                else:
                    again = self.batch(grp)
                    if any(x[1] == kind and x[0] is c for x in again):
                        ck.violation("%s (only together with the other fragments of the file): %s\n%s" %
                                     (LABEL[kind], detail, c.u.strip()[:1200]), self.replay_files(grp))
                    else:
                        ck.inconclusive += 1
                        ck.count("not_reproduced")
        return total_good, total_exc

    def findings(self, ck):
        """Re-run the recorded findings of this property: each is one program with the exact wrong log it
        produces.  The same log again is the known finding; the right log means it was repaired; any other
        log is a violation."""
        for f in load_findings():
            if f["property"] != ck.prop or "program" not in f:
                continue
            c = Case(f["program"], f["entry"], f.get("host", ""), host_entry=bool(f.get("host")))
            _, kind, detail, good, exc = self.batch([c])[0]
            if kind is None:
                ck.count("findings_no_longer_present")
                if not exc:
                    ck.observe((f["id"],))
            elif "%s: %s" % (kind, detail) == f["signature"]:
                ck.observe((f["id"],))
                ck.known_finding(f["id"], f["what"])
            else:
                ck.violation("%s: %s\n%s" % (LABEL[kind], detail, c.u.strip()[:1200]), self.replay_files([c]))


LABEL = {"reject": "valid program rejected", "crash": "compiler failed on a valid program",
         "asm": "assembler refuses the emitted code", "link": "emitted code does not link",
         "trace": "wrong behaviour", "timeout": "no answer"}


def fmt(events):
    return "[" + " ".join("%s:%s" % e for e in events[:24]) + (" ..." if len(events) > 24 else "") + "]"
