"""C11: every name denotes the innermost visible declaration of its name space."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "gen"))
from diff import *
from scopegen import Scopes, spellings

def check():
    ck = Check("C11", "a program in which four names denote many objects, constants, types, tags and members in nested scopes; every use "
               "logs the value or size of what it denotes, compared with two reference builds")
    eng = Engine()
    cases = []
    for i in range(tier(700, 12000)):
        u, e = Scopes(rng("c11", i), "_%d" % i).program()
        cases.append(Case(u, e, tag="scopes"))
    for i in range(tier(350, 6000)):
        k = "_%d" % (100000 + i)
        u, e = Scopes(rng("c11n", i), k, *spellings(rng("c11s", i), k)).program()
        cases.append(Case(u, e, tag="names alike"))
    eng.evaluate(ck, cases, size=12)
    eng.findings(ck)
    ck.finish(min_evaluations=200)


if __name__ == "__main__":
    main(check)
