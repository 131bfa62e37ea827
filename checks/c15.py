"""C15: the containers behave as sequence, map, set, pair and interval list under any history."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from common import *


def check():
    ck = Check("C15", "a random operation history on one container, after every operation compared with a naive model; every element "
               "is registered so that copies, double and missing releases are seen; under address and undefined-behaviour sanitizers")
    objs = build("asan", with_main=False)
    d = subdir("c15")
    exe = os.path.join(d, "containers")
    must(["clang", "-w", "-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize=function", "-fno-sanitize-recover=all",
          "-I", os.path.join(REPO, "src"), os.path.join(RT, "containers.c")] + objs + ["-o", exe], "container driver")
    env = {"ASAN_OPTIONS": "detect_leaks=0:exitcode=99", "UBSAN_OPTIONS": "print_stacktrace=1"}
    total, chunk = tier(16000, 400000), 400
    def one(start):
        return start, run([exe, str(start), str(chunk), str(SEED)], timeout=400, env=env)
    for start, r in pmap(one, range(0, total, chunk)):
        out = r.out.decode("latin-1")
        if r.timeout:
            # no operation takes more than a few steps: a history which does not end is stuck
            r2 = one(start)[1]
            if r2.timeout:
                ck.violation("an operation history does not end (histories %d..%d of seed %d)" % (start, start + chunk - 1, SEED), {"start.txt": "%d %d %d\n" % (start, chunk, SEED)})
            continue
        if r.rc == 0 and out.startswith("{"):
            s = json.loads(out)
            for k, v in s.items():
                if k == "largest_container":
                    ck.counts[k] = max(ck.counts.get(k, 0), v)
                else:
                    ck.count(k, v)
            for i in range(start, start + s["histories"]):
                ck.observe(("history", SEED, i))
            continue
        if r.rc == 77:
            raise HarnessError("driver limit: " + out)
        err = r.err.decode("latin-1")
        first = [l for l in (out + "\n" + err).split("\n") if "FAIL" in l or "ERROR" in l or "runtime error" in l][:1]
        ck.observe(("failed", start))
        ck.violation("%s (exit %d)" % ((first or ["ended abnormally"])[0], r.rc),
                     {"out.txt": out, "err.txt": err, "run.txt": "histories %d..%d, seed %d\n" % (start, start + chunk - 1, SEED)},
                     key=re.sub(r"0x[0-9a-f]+|\d+", "", (first or ["x"])[0]))
    ck.sample("vector: push pop fill set insert erase extend copy; map: add remove get copy iterate; set algebra; pair; live ranges")
    ck.finish(min_evaluations=1000)


if __name__ == "__main__":
    main(check)
