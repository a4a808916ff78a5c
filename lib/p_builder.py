"""C18: parser_data::ParserData against spec/Builder.tla."""
import itertools

NAMES = ["a", "b", "start", "start_", "Start", "ß", "漢字", "", "a b", "\"", "\\", "😀", "x" * 40, "0", "ignore", "é", "e\u0301"]


def cp(s):
    return [ord(x) for x in s]


def exhaustive(depth):
    """Two elements of the same name; all sequences of changes of the first production, rule looked up after each."""
    acts = [["prod", 0, [1]], ["prod", 0, []], ["prod", 0, [1, 0, 1]], ["prods", 0, []], ["prods", 0, [[1], [], [0]]],
            ["prods", 0, [[]]], ["inst", 0, [4]], ["inst", 0, []], ["inst", 0, [1, 2, 1]]]
    for seq in itertools.product(range(len(acts)), repeat=depth):
        ops = [["add", "n", cp("x")], ["add", "t", cp("x")]]
        for k in seq:
            ops += [acts[k], ["rule", 0]]
        yield {"ops": ops + [["rule", 1], ["elems"]]}


def rand(rng, n):
    names = rng.sample(NAMES, rng.randrange(2, 9))
    large = rng.random() < .06
    if large:
        names += ["n%d" % k for k in range(rng.choice([20, 70]))]
    ops, seen = [], []
    def look():
        r = rng.random()
        if r < 0.3:
            return ["find", rng.choice("tn"), cp(rng.choice(NAMES if rng.random() < .2 else names))]
        if r < 0.6:
            return ["at", rng.randrange(len(seen) + 2)]
        if r < 0.7:
            return ["elems"]
        if r < 0.9:
            return ["rule", rng.randrange(len(seen) + 1)]
        return ["rulen", cp(rng.choice(names))]
    def alt():
        return [rng.randrange(len(seen)) for _ in range(rng.choice([0, 1, 1, 2, 3, 6]) if not large else rng.randrange(40))]
    for _ in range(n):
        r = rng.random()
        if not seen or r < 0.35:
            k, nm = rng.choice("tn"), rng.choice(names)
            ops.append([rng.choice(["key", "add"]), k, cp(nm)])
            if (k, nm) not in seen:
                seen.append((k, nm))
        elif r < 0.55:
            ops.append(["prod", rng.randrange(len(seen)), alt()])
        elif r < 0.62:
            ops.append(["prods", rng.randrange(len(seen)), [alt() for _ in range(rng.randrange(0, 4))]])
        elif r < 0.72:
            ops.append(["inst", rng.randrange(len(seen)), [rng.randrange(9) for _ in range(rng.randrange(0, 4) if not large else rng.randrange(40))]])
        else:
            ops.append(look())
    for k in range(len(seen) + 1):
        ops += [["at", k], ["rule", k]]
    for nm in names:
        ops += [["find", "t", cp(nm)], ["find", "n", cp(nm)], ["rulen", cp(nm)]]
    ops.append(["elems"])
    return {"ops": ops}


def run(c):
    c.build("h_builder")
    c.design("MCBuilder", note="all construction histories over 4 elements with up to 2 alternatives per production")
    c.judge("TraceBuilder", c.drive("h_builder", list(exhaustive(c.pick(4, 5)))), what="all short histories of one production")
    cases = [rand(c.rng, c.rng.choice([5, 15, 40, 100])) for _ in range(c.pick(500, 5000))]
    c.judge("TraceBuilder", c.drive("h_builder", cases), what="random construction histories")
    c.assumptions += ["a production without alternatives and instructions is not distinguished from an absent one"]
