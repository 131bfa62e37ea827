"""statement trees reduced to their jumps: loops without bodies, bodies which only jump, labels in a row, blocks of nothing"""


def tree(rnd, depth, loop=False, switch=False, fuel=None, leaf=None):
    """fuel: the name of a counter which every loop spends, so that the tree ends; without it the tree may run for ever"""
    def sub(**k):
        return tree(rnd, depth - 1, k.get("loop", loop), k.get("switch", switch), fuel, leaf)
    if depth <= 0 or rnd.random() < 0.12:
        leaves = [";", ";", "{ }", "{ ; }", "a;", "a++;"] + (["break;", "break;"] if loop or switch else []) + (["continue;", "continue;", "{ continue; }"] if loop else []) + ["return;"]
        if leaf:
            leaves += [leaf(), leaf()]
        return rnd.choice(leaves)
    x = rnd.randrange(13)
    spend = "%s-- > 0" % fuel if fuel else None
    if x == 0:
        if fuel:
            return "for (; %s;) %s" % (spend, sub(loop=True))
        return "for (;;) %s" % sub(loop=True)
    if x == 1:
        if fuel:
            return "while (1) { if (!(%s)) break; %s }" % (spend, sub(loop=True))
        return "while (1) %s" % sub(loop=True)
    if x == 2:
        if fuel:
            return "while (%s && a < 5) %s" % (spend, sub(loop=True))
        return "while (a) %s" % sub(loop=True)
    if x == 3:
        if fuel:
            return "for (a = 0; %s; a++) %s" % (spend, sub(loop=True))
        return "for (%s; %s; %s) %s" % (rnd.choice(["", "a = 1"]), rnd.choice(["", "1", "a < 3", "0"]), rnd.choice(["", "a++", "a"]), sub(loop=True))
    if x == 4:
        return "if (%s) %s" % (rnd.choice(["a", "1", "0", "a > 2", "!a"]), sub())
    if x in (5, 6):
        t = sub()
        if t.startswith(("if", "for", "while", "switch")):
            t = "{ %s }" % t
        return "if (%s) %s else %s" % (rnd.choice(["a", "1", "0", "a > 2", "!a"]), t, sub())
    if x in (7, 8):
        items, used = [], set()
        for _ in range(rnd.randrange(4)):
            v = rnd.randrange(6)
            if v not in used:
                used.add(v)
                items.append("case %d:" % v)
            if rnd.random() < 0.6:
                items.append(sub(switch=True))
        if rnd.random() < 0.6:
            items.insert(rnd.randrange(len(items) + 1), "default:")
        if items and items[-1].endswith(":"):
            items.append(";")
        if not items:
            return "switch (%s) { }" % rnd.choice(["a", "1"])
        return "switch (%s) { %s }" % (rnd.choice(["a", "1", "a & 3"]), " ".join(items))
    if x == 9 and not fuel:
        return "while (%s) %s" % (rnd.choice(["0", "a--", "a > 0 && 1", "1 || a"]), sub(loop=True))
    return "{ %s }" % " ".join(sub() for _ in range(rnd.randrange(1, 4)))


def source(rnd, functions):
    """a file of such functions, not to be run"""
    return "".join("void f%d(int a) { %s }\n" % (i, " ".join(tree(rnd, rnd.randrange(1, 6)) for _ in range(rnd.randrange(1, 4)))) for i in range(functions))
