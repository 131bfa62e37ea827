"""C19: whole programs behave as C defines."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "gen"))
from diff import *
from proggen import program
from classics import classic, ALL


def check():
    ck = Check("C19", "a whole program, with the event log (every logged value, call order, final contents of all "
               "globals) of its run compared with the logs of two reference builds")
    eng = Engine()
    cases = []
    for i in range(tier(8, 120) * len(ALL)):
        u, e, name = classic(rng("c19", "classic", i), i, i)
        cases.append(Case(u, e, tag="classic: " + name))
    eng.evaluate(ck, cases, size=16)
    cases = []
    for i in range(tier(1200, 12000)):
        r = rng("c19", "random", i)
        u, e = program(r, i, size=r.choice([3, 5, 7, 10]), stmts=r.choice([8, 14, 20, 30]))
        cases.append(Case(u, e, tag="random program"))
    eng.evaluate(ck, cases, size=10)
    # all of a program in one translation unit with many others: nothing interferes
    ck.finish(min_evaluations=300)


if __name__ == "__main__":
    main(check)
