"""C03: calls follow the System V x86-64 convention, in both directions."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "gen"))
from diff import *
from lang import *

N = [0]
PTR = {"C": "char *", "I": "int *", "L": "long *"}
CTYPE = dict(NAME)
CTYPE.update(PTR)


def nid():
    N[0] += 1
    return N[0]


def plist(types, names):
    return ", ".join(("%s%s" if CTYPE[t].endswith("*") else "%s %s") % (CTYPE[t], n) for t, n in zip(types, names)) or "void"


def host_value(rnd, t):
    if t == "C":
        return "(u64)hc_"
    if t == "I":
        return "(u64)(hi_ + %d)" % rnd.randrange(4)
    if t == "L":
        return "(u64)(hl_ + %d)" % rnd.randrange(4)
    v = rnd.choice(bounds(t)) if rnd.random() < 0.6 else rnd.getrandbits(64)
    return "ax_%s((%s)%dull)" % (t, CTYPE[t], v & (2 ** 64 - 1))


def src_value(rnd, t):
    """a constant or cheap expression of the accepted language, any integer type (converted by the call)"""
    s = t if rnd.random() < 0.6 else rnd.choice(TYPES)
    return literal(s if s != "c" else "i", rnd.choice(bounds(s)))


def log(t, n):
    """statement of the accepted language logging parameter n of type t"""
    if t == "C":
        return "log_c(%s[0]); log_c(%s[1]);" % (n, n)
    if t == "I":
        return "log_i(*%s);" % n
    if t == "L":
        return "log_l(*%s);" % n
    return "log_%s(%s);" % (t, n)


HOSTDATA = "static char hc_[4] = {65, 66, 0, 1}; static int hi_[4] = {11, -12, 13, 1000000}; static long hl_[4] = {1, -2, 0x123456789abcdefl, 4};\n"


def signature(rnd, ptrs=True):
    n = rnd.choice([0, 1, 2, 3, 4, 5, 6, 6, 7, 7, 8, 8, 9, 10, 11, 12, 13, 14, 17, 20, 21, 22, 23, 25, 30, 40])
    pool = TYPES * 3 + ("CIL" if ptrs else "")
    return "".join(rnd.choice(pool) for _ in range(n))


def callee(rnd):
    """compiled function called by foreign code"""
    k = nid()
    ts = signature(rnd)
    r = rnd.choice(TYPES + "z" + "CIL")
    ns = ["p%d" % i for i in range(len(ts))]
    decl = "".join("%s v%d; v%d = %d; " % (CTYPE[t], j, j, j + 1) for j, t in enumerate(rnd.choice(TYPES) for _ in range(rnd.randrange(0, 4))))
    order = list(zip(ts, ns))
    rnd.shuffle(order)
    body = " ".join(log(t, n) for t, n in order)
    if rnd.random() < 0.5:  # the parameters are read again after the calls
        body += " " + " ".join(log(t, n) for t, n in order if rnd.random() < 0.6)
    for t, n in order:
        if t in TYPES and rnd.random() < 0.25:
            body += " %s = %s + 1; %s" % (n, n, log(t, n)) if t not in "ilq" else " %s = %s ^ 5; %s" % (n, n, log(t, n))
    if r in "CIL":
        same = [n for t, n in order if t == r]
        glob = {"C": "char gg_%d[3] = {1, 2, 3};", "I": "int gg_%d[3] = {4, 5, 6};", "L": "long gg_%d[2] = {7, 8};"}[r] % k
        ret = "return %s;" % (rnd.choice(same) if same else "gg_%d" % k)
        check = {"C": "host_log_c(*(char *)r);", "I": "host_log_i(*(int *)r);", "L": "host_log_l(*(long *)r);"}[r]
    else:
        glob, check = "", "log_as('%s', r);" % r
        nums = [n for t, n in order if t in TYPES]
        ret = "" if r == "z" else "return %s;" % (rnd.choice(nums) if nums else "77")
    u = "%s %s f_%d(%s) { %s%s %s }" % (glob, CTYPE[r], k, plist(ts, ns), decl, body, ret)
    calls = ""
    for _ in range(4):
        args = [host_value(rnd, t) for t in ts]
        calls += "  { u64 a[%d] = {%s}; sub(); u64 r = abi_call((void *)f_%d, a, %d); %s }\n" % (max(6, len(ts)), ", ".join(args) or "0", k, len(ts), check)
    h = "extern void f_%d();\nstatic void h_%d(void) {\n  %s%s}\n" % (k, k, HOSTDATA, calls)
    return Case(u, "h_%d" % k, h, host_entry=True, stateful=False, tag="compiled callee, foreign caller")


TRASH = ('asm volatile("movabs $0x7c7c7c7c00010001, %%rcx; mov %%rcx, %%rdx; mov %%rcx, %%rsi; mov %%rcx, %%rdi; mov %%rcx, %%r8; '
         'mov %%rcx, %%r9; mov %%rcx, %%r10; mov %%rcx, %%r11" ::: "rcx", "rdx", "rsi", "rdi", "r8", "r9", "r10", "r11", "memory");')


def host_callee(rnd, name, ts, r):
    """foreign function: logs its arguments, checks the alignment, destroys what it may, returns a dressed value"""
    ns = ["p%d" % i for i in range(len(ts))]
    body = "  if ((u64)__builtin_frame_address(0) & 15) raw_event(\"ALIGN\", 1);\n"
    for t, n in zip(ts, ns):
        body += {"C": "  host_log_c(*%s);", "I": "  host_log_i(*%s);", "L": "  host_log_l(*%s);"}.get(t, "  host_log_%s(%%s);" % t) % n + "\n"
    if r == "z":
        rt, ret = "u64", "0xdeadbeefdeadbeefull"
    elif r in "CIL":
        rt, ret = "u64", {"C": "(u64)\"Qz\"", "I": "(u64)&hi_%s_" % name, "L": "(u64)&hl_%s_" % name}[r]
    else:
        rt, ret = "u64", host_value(rnd, r)
    return ("static int hi_%s_ = -5; static long hl_%s_ = 0x7766554433221100l;\n"
            "u64 __attribute__((noinline)) %s(%s) {\n%s  u64 r_ = %s;\n  %s\n  return r_;\n}\n" % (name, name, name, plist(ts, ns), body, ret, TRASH))


def caller(rnd):
    """compiled code calling foreign functions"""
    k = nid()
    u, h, body, decls = "", "", "", "int x[2]; long y[2]; char z[3]; x[0] = 21; x[1] = -22; y[0] = 33; y[1] = -44; z[0] = 'k'; z[1] = 'l'; z[2] = 0; int keep; keep = 1234; "
    for j in range(rnd.randrange(1, 4)):
        ts, r = signature(rnd), rnd.choice(TYPES + "zCIL")
        fn = "g_%d_%d" % (k, j)
        if len(ts) > 14 and rnd.random() < 0.6:
            ts = ts[:14]
        u += "%s %s(%s);\n" % (CTYPE[r], fn, plist(ts, ["p%d" % i for i in range(len(ts))]))
        h += host_callee(rnd, fn, ts, r)
        args = []
        for t in ts:
            if t == "C":
                args.append(rnd.choice(["z", "z + 1", "\"str\"", "&z[1]"]))
            elif t == "I":
                args.append(rnd.choice(["x", "x + 1", "&x[1]", "&keep"]))
            elif t == "L":
                args.append(rnd.choice(["y", "y + 1", "&y[1]"]))
            else:
                args.append(rnd.choice([src_value(rnd, t), "x[%d]" % rnd.randrange(2), "y[0]", "z[1]", "keep", "x[0] * 3 + x[1]", "a", "b", "(a ^ b)", "-a", "!b"]))
        call = "%s(%s)" % (fn, ", ".join(args))
        if r == "z":
            body += "%s; " % call
        elif r in "CIL":
            body += {"C": "log_c(*%s); ", "I": "log_i(*%s); ", "L": "log_l(*%s); "}[r] % call
        else:
            v = "r%d" % j
            decls += "%s %s; " % (CTYPE[rnd.choice(TYPES)], v)
            form = rnd.randrange(5)
            if form == 0:
                body += "%s; " % call
            elif form == 1:
                body += "log_%s(%s); " % (r, call)
            elif form == 2:
                body += "if (%s) ev(1); else ev(2); " % call
            else:
                body += "%s = %s; log_l(%s); " % (v, call, v)
        body += "log_i(keep); log_i(x[1]); "
    t2 = rnd.choice(["ii", "lu", "cv"])
    u += "int f_%d(%s) { %s%s return keep; }" % (k, plist(t2, "ab"), decls, body)
    h += "extern void f_%d();\nstatic void h_%d(void) { gridn((void *)f_%d, 'i', \"%s\", %dull, 4); }\n" % (k, k, k, t2, rnd.getrandbits(60))
    return Case(u, "h_%d" % k, h, host_entry=True, stateful=False, tag="compiled caller, foreign callee")


def nested(rnd):
    """calls within arguments of calls, at every argument position, with register and stack arguments"""
    k = nid()
    fns = []
    u = ""
    for j in range(rnd.randrange(2, 5)):
        n = rnd.choice([1, 2, 3, 4, 6, 7, 8, 9, 10])
        ts = "".join(rnd.choice(TYPES) for _ in range(n))
        r = rnd.choice(TYPES)
        ns = ["p%d" % i for i in range(n)]
        e = ns[0]
        for i, p in enumerate(ns[1:]):
            e = "(%s %s %s)" % (e, rnd.choice(["^", "|", "&", "^", "^"]), p if rnd.random() < 0.6 else "(%s << %d)" % (p, rnd.randrange(3)) if ts[i + 1] in "umv" else "~%s" % p)
        u += "%s n_%d_%d(%s) { return %s; }\n" % (NAME[r], k, j, plist(ts, ns), e)
        fns.append(("n_%d_%d" % (k, j), ts, r))

    def call(d):
        fn, ts, r = rnd.choice(fns)
        args = []
        for _ in ts:
            x = rnd.random()
            if d > 0 and x < 0.35:
                args.append(call(d - 1))
            elif d > 0 and x < 0.45:
                args.append("(a + %s)" % call(0))
            else:
                args.append(rnd.choice(["a", "b", "c", "%d" % rnd.randrange(100), "(a ^ c)", "(b & 7)"]))
        return "%s(%s)" % (fn, ", ".join(args))

    ts = "".join(rnd.choice("uvmc") for _ in range(3))
    r = rnd.choice(TYPES)
    e = call(rnd.randrange(1, 4))
    use = rnd.choice(["return %s;", "log_v(%s); return 1;", "%s z_; z_ = %%s; log_v(z_); return z_;" % NAME[r], "return 5 ^ %s;", "return %s ? 3 : 4;"])
    u += "%s f_%d(%s) { %s }" % (NAME[r], k, plist(ts, "abc"), use % e)
    h = "extern void f_%d();\nstatic void h_%d(void) { gridn((void *)f_%d, '%s', \"%s\", %dull, 12); }\n" % (k, k, k, r, ts, rnd.getrandbits(60))
    return Case(u, "h_%d" % k, h, host_entry=True, stateful=False, tag="nested calls")


def pointers(rnd):
    """calls through function pointers: variables, arrays, members, parameters, globals, results of ?:, foreign ones"""
    k = nid()
    r = rnd.choice(TYPES)
    n = rnd.choice([0, 1, 2, 3, 6, 7, 8])
    ts = "".join(rnd.choice(TYPES) for _ in range(n))
    ns = ["p%d" % i for i in range(n)]
    P = plist(ts, ns)
    R = NAME[r]
    u = ""
    nf = rnd.randrange(2, 4)
    for j in range(nf):
        body = "ev(%d); " % (j + 1) + " ".join(log(t, p) for t, p in zip(ts, ns)) + " return %d;" % (j * 11 + 3)
        u += "%s q_%d_%d(%s) { %s }\n" % (R, k, j, P, body)
    u += "%s ext_%d(%s);\n" % (R, k, P)
    h = host_callee(rnd, "ext_%d" % k, ts, r)
    args = ", ".join(rnd.choice([src_value(rnd, t), "a", "b"]) for t in ts)
    f = ["q_%d_%d" % (k, j) for j in range(nf)] + ["ext_%d" % k]
    form = rnd.randrange(7)
    deep = rnd.choice([0, 0, 0, 2, 4, 5, 5])

    def W(call):
        """the call while other values are pending"""
        e = call
        for i in range(deep if form != 3 else 0):
            e = "(%s %s %s)" % (rnd.choice(["a", "b", "a", "b", "%d" % rnd.randrange(9)]), rnd.choice("^|"), e)
        return e
    if form == 0:
        u += "int f_%d(int a, int b) { %s (*fp)(%s); fp = %s; if (a) fp = &%s; log_l(@<fp(%s)@>); log_l(@<(*fp)(%s)@>); return 1; }" % (k, R, P, f[0], f[1], args, args)
    elif form == 1:
        u += "int f_%d(int a, int b) { %s (*fp[3])(%s); int i; fp[0] = %s; fp[1] = %s; fp[2] = %s; for (i = 0; i < 3; i++) log_l(@<fp[i](%s)@>); log_l(@<fp[a & 1](%s)@>); return 2; }" % (k, R, P, f[0], f[1], f[-1], args, args)
    elif form == 2:
        u += "struct s_%d { char c; %s (*fp)(%s); int d; }; int f_%d(int a, int b) { struct s_%d s; struct s_%d *t; t = &s; s.c = 1; s.d = 2; s.fp = %s; log_l(@<s.fp(%s)@>); t->fp = %s; log_l(@<t->fp(%s)@>); return s.d + t->c; }" % (k, R, P, k, k, k, f[-1], args, f[0], args)
    elif form == 3:
        u += "%s ap_%d(%s (*fp)(%s), int a, int b) { return fp(%s); } int f_%d(int a, int b) { log_l(ap_%d(%s, a, b)); log_l(ap_%d(&%s, b, a)); return 4; }" % (R, k, R, P, args, k, k, f[0], k, f[-1])
    elif form == 4:
        u += "%s (*gp_%d)(%s); int f_%d(int a, int b) { gp_%d = %s; log_l(@<gp_%d(%s)@>); gp_%d = a ? %s : %s; log_l(@<(*gp_%d)(%s)@>); return 5; }" % (R, k, P, k, k, f[-1], k, args, k, f[0], f[1], k, args)
    elif form == 5:
        u += "typedef %s (*fn_%d)(%s); fn_%d pick_%d(int i) { if (i) return %s; return %s; } int f_%d(int a, int b) { fn_%d fp; fp = pick_%d(a); log_l(@<fp(%s)@>); log_l(@<pick_%d(b)(%s)@>); return 6; }" % (R, k, P, k, k, f[0], f[-1], k, k, k, args, k, args)
    else:
        # a compiled function handed to foreign code as a callback
        u += "long drv_%d(%s (*fp)(%s), int n); int f_%d(int a, int b) { log_l(drv_%d(%s, 3)); log_l(drv_%d(ext_%d, 1)); return 7; }" % (k, R, P, k, k, f[1], k, k)
        hv = ", ".join(host_value(rnd, t) for t in ts) or "0"
        h += "long drv_%d(void *fp, int n) { if ((u64)__builtin_frame_address(0) & 15) raw_event(\"ALIGN\", 1); for (int i = 0; i < n; i++) { u64 a[%d] = {%s}; log_as('%s', abi_call(fp, a, %d)); } return n * 100; }\n" % (k, max(6, n), hv, r, n)
    u = re.sub("@<(.*?)@>", lambda m: W(m.group(1)), u)
    h += "extern void f_%d();\nstatic void h_%d(void) { gridn((void *)f_%d, 'i', \"ii\", %dull, 4); }\n" % (k, k, k, rnd.getrandbits(60))
    return Case(u, "h_%d" % k, h, host_entry=True, stateful=False, may_reject=deep > 4, tag="function pointers")


def recursion(rnd):
    k = nid()
    n = rnd.choice([1, 2, 3, 5, 6, 7, 9])
    ts = "i" + "".join(rnd.choice(TYPES) for _ in range(n - 1))
    ns = ["p%d" % i for i in range(n)]
    r = rnd.choice("iluvq")
    form = rnd.randrange(4)
    upd = ["p0 - 1"] + ["%s %s %d" % (rnd.choice(ns[1:]) if n > 1 else "p0", rnd.choice(["^", "|", "&"]), rnd.randrange(9)) for _ in ns[1:]]
    a = ", ".join(upd)
    P = plist(ts, ns)
    logs = " ".join("log_%s(%s);" % (t, p) for t, p in zip(ts, ns))
    big = "int arr[%d]; arr[0] = p0; arr[%d] = p0 * 2; " % ((rnd.choice([1, 2, 7, 50]),) + (0,)) if rnd.random() < 0.4 else ""
    if form == 0:
        u = "%s f_%d(%s) { %s if (p0 <= 0) { %s return 1; } %s z_; z_ = f_%d(%s); %s return (z_ * 3) ^ p0; }" % (NAME[r], k, P, big, logs, NAME[r], k, a, logs)
    elif form == 1:
        u = "%s f_%d(%s) { %s if (p0 < 2) return p0; return f_%d(%s) + f_%d(%s); }" % (NAME[r], k, P, big, k, a, k, a.replace("p0 - 1", "p0 - 2", 1))
    elif form == 2:
        # mutual recursion (through a pointer: a name is declared once per file in the accepted language)
        u = "%s (*gp_%d)(%s); %s o_%d(%s) { ev(1); if (p0 <= 0) return 5; return 2 + gp_%d(%s); } %s g_%d(%s) { ev(2); if (p0 <= 0) return 6; return o_%d(%s) * 2; } %s f_%d(%s) { gp_%d = g_%d; return o_%d(%s); }" % (
            NAME[r], k, P, NAME[r], k, P, k, a, NAME[r], k, P, k, a, NAME[r], k, P, k, k, k, ", ".join(ns))
    else:
        u = "%s f_%d(%s) { %s if (p0 < 2) return 1; return (p0 & 7) * (f_%d(%s) - (p0 ^ f_%d(%s))) + p0; }" % (NAME[r], k, P, big, k, a, k, a.replace("p0 - 1", "p0 - 2", 1))
        if SIGNED[r]:
            u = u.replace("return (p0 & 7) *", "return (p0 & 7) ^").replace(") + p0", ") ^ p0")
    calls = ""
    for d in (0, 1, 2, 5, 7):
        args = ["ax_i(%d)" % d] + [host_value(rnd, t) for t in ts[1:]]
        calls += "  { u64 a[%d] = {%s}; sub(); log_as('%s', abi_call((void *)f_%d, a, %d)); }\n" % (max(6, n), ", ".join(args), r, k, n)
    h = "extern void f_%d();\nstatic void h_%d(void) {\n%s}\n" % (k, k, calls)
    return Case(u, "h_%d" % k, h, host_entry=True, stateful=False, tag="recursion")


def saved(rnd):
    """values alive across calls in every number: the callee-saved registers used for them are the caller's"""
    k = nid()
    live = rnd.randrange(1, 6)
    ts = "".join(rnd.choice(TYPES) for _ in range(rnd.randrange(1, 7)))
    ns = "abcdef"[:len(ts)]
    nargs = rnd.choice([0, 1, 2, 6, 7, 8, 9])
    cts = "".join(rnd.choice(TYPES) for _ in range(nargs))
    cr = rnd.choice(TYPES)
    u = "%s c_%d(%s);\n" % (NAME[cr], k, plist(cts, ["p%d" % i for i in range(nargs)]))
    h = host_callee(rnd, "c_%d" % k, cts, cr)
    e = "c_%d(%s)" % (k, ", ".join(rnd.choice(list(ns) + ["3"]) for _ in cts))
    for j in range(live):
        e = "(%s %s %s)" % (rnd.choice(ns), rnd.choice(["^", "|", "&", "^", "=="]), e)
    r = rnd.choice(TYPES)
    pre = rnd.choice(["", "if (a == 0) return 9; ", "if (a) { ev(1); } ", "while (a > 100) return 8; "])
    tail = rnd.choice(["return %s;" % e, "%s v; v = %s; ev(3); return v;" % (NAME[r], e), "if (%s) return 1; return 2;" % e])
    u += "%s f_%d(%s) { %s%s }" % (NAME[r], k, plist(ts, ns), pre, tail)
    h += "extern void f_%d();\nstatic void h_%d(void) { gridn((void *)f_%d, '%s', \"%s\", %dull, 8); }\n" % (k, k, k, r, ts, rnd.getrandbits(60))
    return Case(u, "h_%d" % k, h, host_entry=True, stateful=False, tag="callee-saved registers")


def frames(rnd):
    """frames of every size, with calls in them: alignment and locals"""
    k = nid()
    size = rnd.choice([0, 1, 3, 7, 8, 9, 12, 15, 16, 17, 24, 31, 33, 40, 100, 127, 128, 129, 1000, 5000, 5000, 32752, 32767, 32768, 65520, 65535, 65536, 65537, 70000, 131072, 200000])
    arr = "char loc[%d]; int i_; for (i_ = 0; i_ < %d; i_++) loc[i_] = i_ + a; " % (size, min(size, 5000)) if size else ""
    extra = "".join("%s w%d; w%d = a + %d; " % (NAME[t], j, j, j) for j, t in enumerate(rnd.choice(TYPES) for _ in range(rnd.randrange(0, 5))))
    n = rnd.choice([0, 1, 5, 6, 7, 8, 9, 10])
    ts = "".join(rnd.choice(TYPES) for _ in range(n))
    u = "int c_%d(%s);\n" % (k, plist(ts, ["p%d" % i for i in range(n)]))
    h = host_callee(rnd, "c_%d" % k, ts, "i")
    call = "c_%d(%s)" % (k, ", ".join("a" if rnd.random() < 0.5 else "%d" % rnd.randrange(50) for _ in ts))
    chk = "log_b(loc, %d); " % min(size, 5000) if size else ""
    if size > 5000:
        # its ends and the middle, as much as can be logged
        arr += "for (i_ = %d; i_ < %d; i_++) loc[i_] = i_ + a; for (i_ = %d; i_ < %d; i_++) loc[i_] = i_ ^ a; for (i_ = 0; i_ < %d; i_ += 911) loc[i_] = i_ - a; " % (size - 400, size, size // 2, size // 2 + 300, size)
        chk = "log_b(loc, 200); log_b(loc + %d, 300); log_b(&loc[%d], 400); for (i_ = 0; i_ < %d; i_ += 911) s_ = s_ * 31U + loc[i_]; log_u(s_); " % (size // 2, size - 400, size)
        extra += "unsigned int s_; s_ = 1U; "
    np = rnd.choice([1, 1, 2, 6, 7, 8])
    pts = "i" + "".join(rnd.choice(TYPES) for _ in range(np - 1))
    wl = "".join("log_l(w%d); " % j for j in range(extra.count("; w")))
    u += "int f_%d(%s) { %s%slog_i(%s); %sdirty(); %s%s return a; }" % (k, plist(pts, ["a"] + ["p%d" % i for i in range(1, np)]), extra, arr, call, chk, chk, wl)
    h += "extern void f_%d();\nstatic void h_%d(void) { gridn((void *)f_%d, 'i', \"%s\", %dull, 3); }\n" % (k, k, k, pts, rnd.getrandbits(60))
    return Case(u, "h_%d" % k, h, host_entry=True, stateful=False, tag="frames")


def check():
    ck = Check("C03", "one evaluation = one monitored call: argument values seen by the callee, result, stack alignment at every "
               "boundary crossing, callee-saved registers and stack pointer after return, all compared with the reference",
               assumptions=["foreign code is built by gcc -O1; upper halves of narrow arguments and results are filled with garbage, "
                            "caller-saved registers destroyed by every foreign function"])
    e = Engine()
    rnd = rng("c03")
    cases = []
    for f, q, t in [(callee, 350, 5000), (caller, 350, 5000), (nested, 300, 5000), (pointers, 250, 3000), (recursion, 150, 2000),
                    (saved, 300, 4000), (frames, 150, 2000)]:
        cases += [f(rnd) for _ in range(tier(q, t))]
    ck.count("functions", len(cases))
    e.evaluate(ck, cases, size=50)
    ck.finish(min_evaluations=3000)


if __name__ == "__main__":
    main(check)
