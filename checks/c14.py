"""C14: the compiler releases every resource it acquires."""
import math, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "gen"))
from common import *
from outcome import as_bytes
import inputs, illformed, ctok, c08, c17
from diff import PRELUDE
from scopegen import Scopes

PEAK_DEGREE = 1.45
# parts which are not beside one another but nest: each type holds the whole one before as its result
NESTING = {"typedefs of functions returning the one before"}


class Acct:
    def __init__(self, exe):
        self.exe, self.n = exe, 0
        self.lock = threading.Lock()
        self.dir = subdir("c14")

    def path(self):
        with self.lock:
            self.n += 1
            return os.path.join(self.dir, "p%d.c" % self.n)

    def raw(self, args, path, wrap=()):
        """-> (rc, stderr, numbers or None)"""
        a = path + ".acct"
        r = run(list(wrap) + [self.exe] + args, timeout=120, env={"ACCT_FILE": a})
        nums = None
        if os.path.exists(a):
            with open(a) as f:
                nums = [int(x) for x in f.read().split()]
            os.unlink(a)
        return (None if r.timeout else r.rc), r.err.decode("latin-1"), nums

    def __call__(self, text):
        p = self.path()
        with open(p, "wb") as f:
            f.write(as_bytes(text))
        # deep nests may need more than the usual stack; that is C07's matter
        res = self.raw([p], p)
        for q in (p, p[:-2] + ".s"):
            if os.path.exists(q):
                os.unlink(q)
        return res


def limit(err):
    """the compiler gave up because of a limit of its own: it ends at once"""
    return "Error occured in" not in err and "error" in err


def check():
    ck = Check("C14", "one whole compilation whose every allocation, release and descriptor is accounted for: at exit no live block, no bad release, no open descriptor; "
               "and per repeated construct the growth exponent of the peak of live memory",
               assumptions=["compilations given up for want of registers end at once and are not judged"])
    VARIANTS["acct"] = ("gcc", ["-O1", "-g"], [])
    o = cc_obj(os.path.join(RT, "acct.c"), os.path.join(subdir("acct"), "acct.o"), flags=("-O1", "-fno-builtin", "-w"))
    m = Acct(build("acct", extra=[o]))

    def judge(label, text, args=None, wrap=(), always=False):
        if args is None:
            rc, err, nums = m(text)
        else:
            rc, err, nums = m.raw(args, m.path(), wrap)
        if rc is None:
            ck.inconclusive += 1
            return
        if rc not in (0, 1) or nums is None:
            ck.count("ended_otherwise_left_to_C07")
            return
        if rc == 1 and limit(err) and not always:
            ck.count("given_up")
            return
        al, blocks, byts, peak, bad, fds, std = nums
        ck.observe((label, text))
        ck.count("accepted" if rc == 0 else "refused")
        ck.count("kind:" + label.split(":")[0])
        ck.count("allocations", al)
        ck.counts["largest_peak_bytes"] = max(ck.counts.get("largest_peak_bytes", 0), peak)
        what = []
        if blocks:
            what.append("%d blocks (%d bytes) are never released" % (blocks, byts))
        if bad:
            what.append("%d releases of blocks which are not live" % bad)
        if fds:
            what.append("%d files are left open" % fds)
        if what:
            msg = [l for l in err.split("\n") if "error" in l][:2]
            ck.violation("%s: %s, status %d %s\n%s" % (label, "; ".join(what), rc, " ".join(msg)[:200], as_bytes(text or "").decode("latin-1")[-600:]),
                         {"source.c": as_bytes(text or ""), "stderr.txt": err, "how.txt": "build %s with rt/acct.c linked; ACCT_FILE names the account\n" % label}, key=(label.split(":")[0], tuple(what)[0][:0], "".join(msg)[:80]))

    jobs = []
    for i in range(tier(450, 6000)):
        r = rng("c14", i)
        t = inputs.valid(r, i)
        jobs.append(("valid", t))
        toks = ctok.tokens(t)
        for _ in range(tier(6, 20)):
            jobs.append(("token edit", PRELUDE * (not t.startswith(PRELUDE)) + ctok.edit(r, toks)))
        jobs.append(("truncated", inputs.truncated(r, t)))
        jobs.append(("bytes", inputs.soup(r)))
        jobs.append(("literal", inputs.literal_soup(r)))
        jobs.append(("opened", inputs.opened(r, r.choice([1, 2, 5, 30]))))
    for i in range(tier(60, 1000)):
        jobs.append(("scopes", PRELUDE + Scopes(rng("c14s", i), "_%d" % i).program()[0]))
    jobs += [("ill-formed: " + l, t) for l, t in illformed.programs(rng("c14i"), tier(3, 20))]
    for k, f in inputs.NEST.items():
        for n in (1, 2, 7, 40):
            jobs.append(("nest: " + k, f(n)))
    for k, f in c08.FLAT.items():
        for n in (1, 2, 5, 33):
            jobs.append(("flat: " + k, f(n)))
    r = rng("c14x")
    # several errors at once, and errors in every place of a correct program
    cat = [t for _, t in illformed.programs(rng("c14j"), 1)]
    for i in range(tier(300, 4000)):
        bad = r.choice(cat)
        jobs.append(("errors and correct parts", bad + inputs.small(r, i)[len(PRELUDE):] if r.random() < 0.5 else inputs.small(r, i) + bad))
    # lists of which some elements are wrong, and what follows a refused part
    for i in range(tier(700, 9000)):
        q = rng("c14l", i)
        jobs.append(("errors in a list", c17.listed(q, i)[0]))
        if i % 3 == 0:
            jobs.append(("errors by name", c17.named(q, i)[0]))
            jobs.append(("after an error", c17.leftovers(q, i)[0]))
    # every prefix of some programs, token by token
    for i in range(tier(6, 40)):
        toks = ctok.tokens(inputs.small(rng("c14p", i), i * 2))
        if len(toks) > 700:
            toks = toks[:700]
        jobs += [("prefix", ctok.join(toks[:n])) for n in range(0, len(toks), tier(3, 1))]
    pmap(lambda j: judge(*j), jobs)
    # command lines and faults around the source
    d = subdir("c14-fs")
    good = os.path.join(d, "good.c")
    with open(good, "w") as f:
        f.write("int main(void) { return 0; }\n")
    os.makedirs(os.path.join(d, "block.s"), exist_ok=True)
    with open(os.path.join(d, "block.c"), "w") as f:
        f.write("int main(void) { char *p; p = \"x\"; return p[0]; }\n")
    with open(os.path.join(d, "empty.c"), "w") as f:
        pass
    with open(os.path.join(d, "other.txt"), "w") as f:
        f.write("int x;")
    os.symlink("/dev/full", os.path.join(d, "full.s"))
    with open(os.path.join(d, "full.c"), "w") as f:
        f.write("int main(void) { return 0; }\n" * 1)
    for args in ([], [good, good], [os.path.join(d, "missing.c")], [d], [os.path.join(d, "other.txt")], [os.path.join(d, "block.c")], [os.path.join(d, "full.c")], [os.path.join(d, "empty.c")], [good], ["-"], [""], [good + "/x.c"]):
        judge("command line: %s" % " ".join(os.path.basename(a) for a in args), None, args=args, always=True)
    # peak memory per construct
    fams = [(k, f, [400, 800, 1600, 3200], "nested" if k in NESTING else "repeated") for k, f in c08.FLAT.items()] + [(k, f, [37, 75, 150, 300], "nested") for k, f in inputs.NEST.items()]
    pj = [(i, n) for i, (_, _, ns, _) in enumerate(fams) for n in ns]
    res = dict(zip(pj, pmap(lambda j: m(fams[j[0]][1](j[1])), pj)))
    worst = {}
    for i, (name, f, ns, kind) in enumerate(fams):
        rows = [(len(f(n)), res[(i, n)]) for n in ns]
        rows = [(s, x[2][3], x[0]) for s, x in rows if x[0] in (0, 1) and x[2]]
        if len(rows) < 4 or len({x[2] for x in rows}) > 1:
            continue
        ex = [math.log(max(b[1] - a[1], 1) / max(a[1] - z[1], 1)) / math.log((b[0] - a[0]) / (a[0] - z[0])) for z, a, b in zip(rows, rows[1:], rows[2:]) if a[0] > z[0] and b[0] - a[0] > 1.3 * (a[0] - z[0])]
        if len(ex) < 2:
            continue
        ck.observe(("peak", name))
        ck.count("peak: constructs " + kind)
        worst["%s: %s" % (kind, name)] = ex[-1], rows[-1][1] / rows[-1][0]
        if kind == "repeated" and min(ex) > PEAK_DEGREE and rows[-1][1] > 300 * rows[-1][0]:
            ck.violation("%s: peak memory grows with exponents %s: %s" % (name, ", ".join("%.2f" % x for x in ex), "; ".join("source %d peak %d" % x[:2] for x in rows)), {"program.c": f(ns[-1])}, key=("peak", name))
    if os.environ.get("SHOW"):
        for k, v in sorted(worst.items(), key=lambda t: -t[1][0])[:25]:
            print("%.2f %8.0f %s" % (v[0], v[1], k))
        for k, v in sorted(worst.items(), key=lambda t: -t[1][1])[:15]:
            print("%.2f %8.0f %s" % (v[0], v[1], k))
    ck.sample("growth of the peak per construct, steepest: " + ", ".join("%s %.2f" % (k, v[0]) for k, v in sorted(worst.items(), key=lambda t: -t[1][0])[:8]))
    ck.finish(min_evaluations=2000)


if __name__ == "__main__":
    main(check)
