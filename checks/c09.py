"""C09: exit status, diagnostics and output file always agree."""
import os, stat, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "gen"))
from common import *
import inputs
import ctok

NOBODY = 65534


def spawn(cmd, cwd, fsize=None, user=False, close=(), stderr_full=False, timeout=120, nofile=None, env=None):
    def pre():
        if fsize is not None:
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_FSIZE, (fsize, fsize))
        if nofile is not None:
            resource.setrlimit(resource.RLIMIT_NOFILE, (nofile, nofile))
        if user:
            os.setgroups([])
            os.setgid(NOBODY)
            os.setuid(NOBODY)
        for fd in close:
            os.close(fd)
    # a limit on file sizes must not hit the diagnostics: they go through pipes
    p = subprocess.Popen(cmd, cwd=cwd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                         stderr=open("/dev/full", "w") if stderr_full else subprocess.PIPE, preexec_fn=pre, start_new_session=True, env=env)
    try:
        out, err = p.communicate(timeout=timeout)
        return Result(p.returncode, out, err or b"", False)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, err = p.communicate()
        return Result(p.returncode, out, err or b"", True)


def snapshot(root):
    """{path: (kind, content)} of everything below root"""
    s = {}
    for d, ds, fs in os.walk(root):
        for n in ds + fs:
            p = os.path.join(d, n)
            st = os.lstat(p)
            k = os.path.relpath(p, root)
            if stat.S_ISLNK(st.st_mode):
                s[k] = ("link", os.readlink(p))
            elif stat.S_ISDIR(st.st_mode):
                s[k] = ("dir", stat.S_IMODE(st.st_mode))
            elif stat.S_ISREG(st.st_mode):
                with open(p, "rb") as f:
                    s[k] = ("file", f.read(), stat.S_IMODE(st.st_mode))
            else:
                s[k] = ("other", st.st_mode)
    return s


class Monitor:
    def __init__(self, ck, exe):
        self.ck, self.exe = ck, exe
        self.n = 0
        self.lock = threading.Lock()
        self.root = subdir("c09")
        os.chmod(scratch(), 0o755)

    def newdir(self):
        with self.lock:
            self.n += 1
            d = os.path.join(self.root, "d%d" % self.n)
        os.mkdir(d)
        return d

    def judge(self, what, d, args, out=None, want=None, complete=None, refuse=False, existing_kept=False, cmd=None, text=None, mute=False, **how):
        """Run in d and compare the tree before and after.
        out: path (below d) of the output file; want: 0, 1 or None (either);
        complete: the assembly that status 0 promises; existing_kept: an old output has to survive."""
        ck = self.ck
        before = snapshot(d)
        r = spawn((cmd or [self.exe]) + args, d, **how)
        if r.timeout:
            ck.inconclusive += 1
            return None
        after = snapshot(d)
        ck.observe((what, tuple(args), text))
        err = r.err.decode("latin-1")
        bad = []
        if r.rc not in (0, 1):
            if r.rc < 0 and how.get("fsize") is None and cmd is None and want is None:
                ck.inconclusive += 1
                return r
            bad.append("ended with status %d" % r.rc)
        elif want is not None and r.rc != want:
            bad.append("status %d instead of %d" % (r.rc, want))
        new = after.get(out) if out else None
        if r.rc == 0:
            ck.count("status 0")
            target = new
            if new and new[0] == "link":
                target = after.get(os.path.normpath(os.path.join(os.path.dirname(out), new[1])))
            if not target or target[0] != "file":
                bad.append("status 0 without an output file")
            elif complete is not None and target[1] != complete:
                bad.append("status 0 but the output is not the complete assembly (%d bytes, complete: %d)" % (len(target[1]), len(complete)))
        if r.rc == 1:
            ck.count("status 1")
            if not err.strip() and not mute and not how.get("stderr_full") and 2 not in how.get("close", ()):
                bad.append("status 1 without a diagnostic")
            if new is not None and new != before.get(out):
                bad.append("status 1 but an output file was left or changed")
            if existing_kept and new != before.get(out):
                bad.append("the existing output was not left alone")
        for k in sorted(set(before) | set(after)):
            if k == out or before.get(k) == after.get(k):
                continue
            if out and before.get(out, ("",))[0] == "link" and os.path.normpath(os.path.join(os.path.dirname(out), before[out][1])) == k and r.rc == 0:
                continue    # written through the link
            bad.append("%s was %s" % (k, "created" if k not in before else "removed" if k not in after else "modified"))
        if bad:
            files = {"args.txt": repr(args) + "\n" + repr(how) + "\n", "stderr.txt": err}
            if text is not None:
                files["source.c"] = text if isinstance(text, bytes) else text.encode("latin-1")
            ck.violation("%s: %s" % (what, "; ".join(bad)), files, key=(what.split(" (")[0], bad[0].split(" (")[0]))
        return r


def put(path, data):
    with open(path, "wb") as f:
        f.write(data if isinstance(data, bytes) else data.encode("latin-1"))


def check():
    ck = Check("C09", "one run of the compiler with a given command line, input, existing output and fault; the whole directory tree before and "
               "after, the exit status and the diagnostics are compared with what the status promises")
    exe = build("plain")
    os.chmod(os.path.dirname(exe), 0o755)
    m = Monitor(ck, exe)
    r = rng("c09")

    # reference outputs of undisturbed runs
    progs = []
    for i in range(tier(40, 300)):
        t = inputs.small(rng("c09p", i), i) if i % 3 else inputs.valid(rng("c09q", i), i)
        progs.append(t)
    tiny = "int main(void) { return 0; }\n"
    progs += [tiny, "int x;\n", "int f(int a);\n"]
    good = []

    def plainrun(t):
        d = m.newdir()
        put(os.path.join(d, "p.c"), t)
        res = m.judge("undisturbed run", d, ["p.c"], out="p.s", want=0, text=t)
        p = os.path.join(d, "p.s")
        asm = open(p, "rb").read() if res and res.rc == 0 and os.path.isfile(p) else None
        shutil.rmtree(d)
        return asm
    for t, asm in zip(progs, pmap(plainrun, progs)):
        if asm is not None:
            good.append((t, asm))
    if not good:
        ck.finish(min_evaluations=1 << 30)
    # what status 0 promises: the assembly is complete (it defines every function and object, and is accepted by the assembler)
    def complete(job):
        t, asm = job
        d = m.newdir()
        put(os.path.join(d, "p.s"), asm)
        put(os.path.join(d, "p.c"), t)
        a = run(["as", "p.s", "-o", "p.o"], cwd=d)
        g = run(["gcc", "-std=gnu99", "-w", "-O0", "-fno-common", "-c", "p.c", "-o", "g.o"], cwd=d)
        names = []
        for o in ("p.o", "g.o"):
            q = run(["nm", "-g", "--defined-only", o], cwd=d)
            names.append({l.split()[-1] for l in q.out.decode().split("\n") if l})
        shutil.rmtree(d)
        return a.rc, g.rc, names
    for (t, asm), (arc, grc, names) in zip(good, pmap(complete, good)):
        if grc:
            continue
        ck.observe(("complete", t))
        if arc:
            ck.violation("status 0 but the assembler refuses the output", {"source.c": t.encode("latin-1"), "out.s": asm}, key="assembler")
        elif not names[1] <= names[0]:
            ck.violation("status 0 but the output lacks %s" % ", ".join(sorted(names[1] - names[0])), {"source.c": t.encode("latin-1"), "out.s": asm}, key="lacks")

    # ---- sources with errors of every phase
    bad = ["int main(void) { return 'ab; }", "int x = \"abc", "int @;", "int main(void) { return 1 + ; }", "int main(void { }", "int main(void) { return zz; }", "int a; int a;", "struct S { int a; }; int f(void) { struct S s; return s + 1; }",
           "", " ", "\n", "\0", "int a;\0int b;", "int main(void) { break; }", "int f(int a) { return %s; }" % "".join("(a * 2 + " for _ in range(12)) + "a" + ")" * 12,
           "int f(int a) { return (a+1)*((a+2)*((a+3)*((a+4)*((a+5)*((a+6)*((a+7)*((a+8)*((a+9)*(a+10)))))))))); }", "int f(int a) { return f(a) + (f(a) + (f(a) + (f(a) + (f(a) + (f(a) + (f(a) + (f(a) + f(a)))))))); }", "08;", "99999999999999999999999;", "#define x\n", "// c\n", "goto x;", "short x;", "{", "}", "x", "int"]
    bad += [t for t in r.sample(inputs.catalogue(r, 1), tier(300, 2000))]
    bad += [ctok.edit(r, ctok.tokens(t)) for t, _ in good for _ in range(tier(4, 20))]
    bad += [inputs.truncated(r, t).decode("latin-1") for t, _ in good for _ in range(tier(3, 10))]
    olds = [None, b"old output\n", b"", b"x" * 100000]

    def source_error(job):
        i, t = job
        d = m.newdir()
        b = t.encode("latin-1", "replace")
        put(os.path.join(d, "e.c"), b)
        put(os.path.join(d, "other.s"), b"untouched")
        put(os.path.join(d, "e.o"), b"untouched")
        old = olds[i % len(olds)]
        if old is not None:
            put(os.path.join(d, "e.s"), old)
        m.judge("source with errors" if old is None else "source with errors, output exists", d, ["e.c"], out="e.s", existing_kept=True, text=b)
        shutil.rmtree(d)
    pmap(source_error, list(enumerate(bad)))

    # ---- success replaces an existing output completely
    def overwrite(job):
        i, (t, asm) = job
        d = m.newdir()
        put(os.path.join(d, "p.c"), t)
        put(os.path.join(d, "p.s"), [b"x" * (len(asm) + 5000), asm[:-1], b"", asm + b"tail"][i % 4])
        put(os.path.join(d, "p.c.s"), b"untouched")
        put(os.path.join(d, "p"), b"untouched")
        if i % 3 == 0:
            os.chmod(os.path.join(d, "p.c"), 0o444)
        m.judge("output exists", d, ["p.c"], out="p.s", want=0, complete=asm, text=t)
        shutil.rmtree(d)
    pmap(overwrite, list(enumerate(good)))

    # ---- names and command lines
    t, asm = good[0]
    names = ["p.c", "a.b.c", "..c", ".c", "a..c", "x y.c", "-o.c", "--help.c", "p.c.c", "\xe9.c", "UPPER.c", "c.c", "s.c", ".s.c", "a.s.c", "n" * 253 + ".c", "q'\".c", "a\nb.c", "%s%d.c", "*.c", "ccc.c", "a.cc.c", "\\.c", "$x.c", "0.c", "main.h.c"]
    for n in names:
        for mode in ("rel", "abs", "dot", "sub", "up", "link"):
            d = m.newdir()
            os.mkdir(os.path.join(d, "sub.c"))
            os.mkdir(os.path.join(d, "sub"))
            where, base, arg = d, "", n
            if mode == "sub":
                base = "sub.c/"
                arg = "sub.c/" + n
            elif mode == "abs":
                arg = os.path.join(d, n)
            elif mode == "dot":
                arg = "./" + n
            elif mode == "up":
                arg = "sub/../" + n
            elif mode == "link":
                put(os.path.join(d, "real.txt"), t)
                os.symlink("real.txt", os.path.join(d, n))
            if mode != "link":
                put(os.path.join(d, base + n), t)
            m.judge("file name %r (%s)" % (n, mode), d, [arg], out=base + n[:-1] + "s", want=0, complete=asm)
            shutil.rmtree(d)
    for n in ["p", "p.h", "p.C", "p.cc", "p.c~", "p.s", "p.c.txt", "pc", "p.", "c", ".", "..", "p.cpp", "p.i", "p.c ", "sub.c/p", "sub.c", "sub.c/", "missing.c", "missing/p.c", "", "p.c/", "p.c/x.c"]:
        d = m.newdir()
        os.mkdir(os.path.join(d, "sub.c"))
        put(os.path.join(d, "sub.c", "p"), t)
        put(os.path.join(d, "sub.s"), b"untouched")
        put(os.path.join(d, "missing.s"), b"untouched")
        for f in ("p", "p.h", "p.C", "p.cc", "p.c~", "p.s", "p.c.txt", "pc", "p.", "c", "p.cpp", "p.i", "p.c ", "p.c"):
            put(os.path.join(d, f), t)
        m.judge("bad argument %r" % n, d, [n], want=1)
        shutil.rmtree(d)
    for args in [[], ["p.c", "q.c"], ["p.c", "-o", "x.s"], ["-S", "p.c"], ["p.c", ""], ["p.c", "p.c"], ["p.c"] * 9, ["", ""], ["--version"], ["--help"], ["-"]]:
        d = m.newdir()
        put(os.path.join(d, "p.c"), t)
        put(os.path.join(d, "q.c"), t)
        m.judge("arguments %r" % (args,), d, args, want=1)
        shutil.rmtree(d)

    # ---- outputs which cannot be written
    # full device, at every size
    limits = []
    for t, asm in good:
        n = len(asm)
        ls = {0, 1, 2, n - 1, n, n + 1, n // 2, 4095, 4096, 4097, 8191, 8192, n - n % 4096, n - n % 4096 - 1, n - n % 4096 + 1} | {r.randrange(n + 1) for _ in range(tier(6, 30))}
        limits += [(t, asm, l) for l in sorted(ls) if 0 <= l <= n + 1]

    def full(job):
        t, asm, l = job
        d = m.newdir()
        put(os.path.join(d, "p.c"), t)
        old = (None, b"old\n", asm)[(l + len(t)) % 3]
        if old is not None:
            put(os.path.join(d, "p.s"), old)
        m.judge("output limited to fewer bytes than it needs" if l < len(asm) else "output limited to enough bytes", d, ["p.c"], out="p.s",
                want=1 if l < len(asm) else 0, complete=asm, fsize=l, text=t)
        shutil.rmtree(d)
    pmap(full, limits)
    for t, asm in good[:tier(20, 100)]:
        d = m.newdir()
        put(os.path.join(d, "p.c"), t)
        os.symlink("/dev/full", os.path.join(d, "p.s"))
        m.judge("output on a full device", d, ["p.c"], out="p.s", want=1, text=t)
        shutil.rmtree(d)
    for kind in ("dir", "dir with files", "dangling", "loop"):
        d = m.newdir()
        put(os.path.join(d, "p.c"), t)
        if kind.startswith("dir"):
            os.mkdir(os.path.join(d, "p.s"))
            if "files" in kind:
                put(os.path.join(d, "p.s", "f"), b"1")
        elif kind == "loop":
            os.symlink("p.s", os.path.join(d, "p.s"))
        else:
            os.symlink("no/where", os.path.join(d, "p.s"))
        m.judge("output is a %s" % kind, d, ["p.c"], out="p.s", want=1)
        shutil.rmtree(d)
    # an output which is a link to another file is written through it
    d = m.newdir()
    put(os.path.join(d, "p.c"), t)
    put(os.path.join(d, "target"), b"old")
    os.symlink("target", os.path.join(d, "p.s"))
    m.judge("output is a link", d, ["p.c"], out="p.s", want=0, complete=asm)
    # permissions, as a user who has none
    try:
        spawn(["true"], "/", user=True)
        unpriv = True
    except (PermissionError, subprocess.SubprocessError, OSError):
        unpriv = False
        ck.count("no unprivileged user available")
    if unpriv:
        for what, dm, cm, sm, want in [("directory not writable", 0o555, 0o644, None, 1), ("input not readable", 0o777, 0o000, None, 1), ("output not writable", 0o777, 0o644, 0o444, 1),
                                       ("directory not writable but output is", 0o555, 0o644, 0o666, 0), ("directory not searchable", 0o666, 0o644, None, 1), ("everything allowed", 0o777, 0o444, 0o666, 0)]:
            for t, asm in good[:5]:
                top = m.newdir()
                d = os.path.join(top, "w")
                os.mkdir(d)
                put(os.path.join(d, "p.c"), t)
                if sm is not None:
                    put(os.path.join(d, "p.s"), b"old output")
                    os.chmod(os.path.join(d, "p.s"), sm)
                os.chmod(os.path.join(d, "p.c"), cm)
                os.chmod(d, dm)
                os.chmod(top, 0o755)
                m.judge(what, top, ["w/p.c"], out="w/p.s", want=want, complete=asm, user=True)
                os.chmod(d, 0o700)
                shutil.rmtree(top)
    # few descriptors, closed or full standard streams
    for t, asm in good[:tier(10, 60)]:
        for close in ((0,), (1,), (2,), (0, 1), (1, 2), (0, 1, 2)):
            d = m.newdir()
            put(os.path.join(d, "p.c"), t)
            m.judge("closed standard streams", d, ["p.c"], out="p.s", want=0, complete=asm, close=close, text=t)
            put(os.path.join(d, "e.c"), "int main(void) { return zz; }")
            put(os.path.join(d, "e.s"), "old")
            m.judge("closed standard streams, source with errors", d, ["e.c"], out="e.s", want=1, existing_kept=True, close=close)
            shutil.rmtree(d)
        d = m.newdir()
        put(os.path.join(d, "p.c"), t)
        m.judge("full standard error", d, ["p.c"], out="p.s", want=0, complete=asm, stderr_full=True, text=t)
        put(os.path.join(d, "e.c"), "int main(void) { return zz; }")
        m.judge("full standard error, source with errors", d, ["e.c"], out="e.s", want=1, stderr_full=True)
        for n in (4, 5):
            os.unlink(os.path.join(d, "p.s")) if os.path.exists(os.path.join(d, "p.s")) else None
            m.judge("%d file descriptors" % n, d, ["p.c"], out="p.s", want=None, complete=asm, nofile=n)
        shutil.rmtree(d)

    # ---- faults injected into single system calls (strace)
    probe = run(["strace", "-o", "/dev/null", "-e", "trace=write", "true"])
    if probe.rc == 0:
        jobs = []
        for t, asm in good[:tier(14, 80)] + [g for g in good if len(g[1]) > 9000][:tier(4, 20)]:
            nw = len(asm) // 4096 + 1
            for k in sorted({1, 2, nw, nw + 1, max(1, nw - 1)} | {r.randrange(1, nw + 2) for _ in range(2)}):
                for e in r.sample(["ENOSPC", "EIO", "EDQUOT", "EFBIG", "EINTR"], 2):
                    jobs.append((t, asm, "write", "error=%s:when=%d" % (e, k)))
            for sc, es in (("read", ["EIO", "EISDIR"]), ("openat", ["EMFILE", "EACCES", "ENFILE"]), ("close", ["EIO", "ENOSPC"]), ("lseek", ["ESPIPE", "EINVAL"]), ("ftruncate", ["EIO"])):
                for k in range(1, 6):
                    jobs.append((t, asm, sc, "error=%s:when=%d" % (r.choice(es), k)))

        def inject(job):
            t, asm, sc, spec = job
            d = m.newdir()
            put(os.path.join(d, "p.c"), t)
            # only faults on the two files: everything else (loader, locale) would disturb the start of the process
            cmd = ["strace", "-qq", "-o", "/dev/null", "-P", os.path.join(d, "p.c"), "-P", os.path.join(d, "p.s"), "-e", "trace=%s" % sc, "-e", "inject=%s:%s" % (sc, spec), exe]
            m.judge("failing %s of %s (%s)" % (sc, "input or output", spec), d, [os.path.join(d, "p.c")], out="p.s", complete=asm, cmd=cmd, text=t)
            shutil.rmtree(d)
        pmap(inject, jobs)
        ck.count("system call faults injected", len(jobs))
    else:
        ck.count("strace not usable")

    # ---- many compilations at once in one directory do not disturb each other
    for rep in range(tier(3, 30)):
        d = m.newdir()
        some = good[:40]
        for i, (t, asm) in enumerate(some):
            put(os.path.join(d, "p%d.c" % i), t)
        res = pmap(lambda i: spawn([exe, "p%d.c" % i], d), range(len(some)), jobs=32)
        for i, (t, asm) in enumerate(some):
            p = os.path.join(d, "p%d.s" % i)
            ck.observe(("parallel", rep, i))
            if res[i].rc != 0 or not os.path.exists(p) or open(p, "rb").read() != asm:
                ck.violation("a compilation was disturbed by others in the same directory: status %d" % res[i].rc, {"source.c": t.encode("latin-1")}, key="parallel")
        if set(os.listdir(d)) != {"p%d.%s" % (i, e) for i in range(len(some)) for e in "cs"}:
            ck.violation("other files appeared or disappeared: %s" % sorted(os.listdir(d))[:20], {}, key="parallel files")
        shutil.rmtree(d)
    ck.sample("undisturbed: status 0, p.s of %d bytes; limited to %d bytes: status 1, diagnostic, no p.s" % (len(good[0][1]), len(good[0][1]) - 1))
    ck.finish(min_evaluations=1000)


if __name__ == "__main__":
    main(check)
