"""C16: simple_graph::Graph against spec/Graph.tla; C17: named_graph::GraphNamedNodes against spec/NamedGraph.tla."""
import itertools


def exhaustive_simple(depth):
    """All operation sequences on one graph with two nodes: numbered and unnumbered edges from node 0."""
    acts = [["edge", 0, 0, 1]] + [["eid", 0, 0, 1, n] for n in range(0, 4)] + [["eid", 0, 0, 0, 7]]
    for seq in itertools.product(range(len(acts)), repeat=depth):
        ops = [["node", 0, 10], ["node", 0, 11]]
        for k in seq:
            ops.append(list(acts[k]))
            ops.append(["succ", 0, 0])
        ops.append(["all", 0])
        yield {"kind": "simple", "_by": 0, "ops": ops}


def rand_simple(rng, n, big):
    ops, size, d = [], [0, 0], 0
    nums = [list(range(0, 4)), list(range(0, 12)), [0, 1, 5, 100, 1000, 999999], list(range(20)), list(range(80)), [0, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 65537, 16777216, 1000000000, 1000000001, 1000000002, 1000000255, 1500000000]][rng.randrange(6)]
    hub = rng.random() < 0.5
    for k in range(n):
        g = 0 if rng.random() < 0.7 else 1
        r = rng.random()
        def node(g):
            return rng.choice([0, size[g] - 1, rng.randrange(size[g])]) if hub else rng.randrange(size[g])
        if size[g] == 0 or r < 0.15:
            d += 1
            ops.append(["node", g, d]); size[g] += 1
        elif r < 0.35:
            ops.append(["edge", g, node(g), node(g)])
        elif r < 0.65:
            ops.append(["eid", g, node(g), node(g), rng.choice(nums)])
        elif r < 0.75:
            ops.append(["find", g, node(g), rng.choice(nums + [0, 1, 2, 3])])
        elif r < 0.85:
            ops.append(["path", g, node(g), [rng.choice(nums[:4] + [0, 1]) for _ in range(rng.randrange(0, 5))]])
        elif r < 0.9:
            ops.append(["succ", g, node(g)])
        elif r < 0.95 and size[1 - g]:
            ops.append(["merge", g, node(g), node(1 - g)])
            size[g] += size[1 - g]; size[1 - g] = 0
            ops.append(["all", g])
        else:
            ops.append(["all", g])
        if not big and size[0]:
            ops.append(["all", 0])
    ops += [["all", 0], ["all", 1]]
    return {"kind": "simple", "_by": rng.choice([0, 2 ** 31, 2 ** 32 - 10 ** 9, 2 ** 32, 2 ** 62]), "ops": ops}


def two_large(rng, n):
    """Two graphs of n nodes each become one."""
    ops = [["node", g, 1000 * g + k] for k in range(n) for g in (0, 1)]
    for g in (0, 1):
        for _ in range(n):
            ops.append(rng.choice([["edge", g, rng.randrange(n), rng.randrange(n)], ["eid", g, rng.randrange(n), rng.randrange(n), rng.randrange(300)],
                                   ["eid", g, 7, rng.randrange(n), rng.randrange(300)], ["edge", g, n - 1, rng.randrange(n)]]))
    for _ in range(2):
        ops.append(["merge", 0, rng.randrange(n), rng.randrange(n)])
        ops += [["eid", 0, rng.randrange(2 * n), rng.randrange(2 * n), rng.randrange(300)] for _ in range(20)] + [["all", 0]]
        ops += [["node", 1, 5], ["edge", 1, 0, 0]] + [["node", 1, 6]] * (n - 1)
    return {"kind": "simple", "_by": 0, "ops": ops}


def rand_named(rng, n):
    ops, d = [], 0
    names = rng.sample(range(0, 60), rng.randrange(1, 9) if rng.random() < .93 else 40)
    added = set()
    for _ in range(n):
        r = rng.random()
        x = rng.choice(names)
        y = rng.choice(names)
        d += 1
        ix = rng.choice([0, 0, 1, len(added), max(0, len(added) - 1), len(added) + 1, 100])
        if r < 0.25:
            ops.append(["node", x, d]); added.add(x)
        elif r < 0.5:
            ops.append(["edge", x, y])
            ops.append(["succi", x])
        elif r < 0.6:
            ops.append([rng.choice(["set", "seti"]), x if ops and rng.random() < .5 else x, d])
            if ops[-1][0] == "seti":
                ops[-1][1] = ix
        elif r < 0.7:
            ops.append([rng.choice(["get", "getm", "name"]), x])
        elif r < 0.8:
            ops.append([rng.choice(["geti", "getim"]), ix])
        else:
            ops.append([rng.choice(["succ", "succi"]), x])
    for x in names:
        ops += [["name", x], ["get", x], ["getm", x], ["succi", x], ["succ", x]]
    for ix in range(len(added) + 2):
        ops += [["geti", ix], ["getim", ix]]
    return {"kind": "named", "ops": ops}


def exhaustive_named(depth):
    acts = [["node", 3], ["node", 4], ["edge", 3, 4], ["edge", 4, 3], ["edge", 3, 3], ["set", 3], ["seti", 0], ["seti", 1]]
    look = [["name", 3], ["name", 4], ["get", 3], ["getm", 4], ["geti", 0], ["geti", 1], ["getim", 0], ["getim", 1],
            ["succ", 3], ["succ", 4], ["succi", 3], ["succi", 4]]
    for seq in itertools.product(range(len(acts)), repeat=depth):
        ops, d = [], 0
        for k in seq:
            d += 1
            a = list(acts[k])
            if a[0] in ("node", "set", "seti"):
                a.append(d)
            ops.append(a)
        yield {"kind": "named", "ops": look[:4] + ops + look}


def run(c):
    c.build("h_graph")
    if c.prop == "C16":
        c.design("MCGraph", note="all graphs with up to 3 nodes and 3 edges in two objects; edge lists of the code followed alongside")
        c.judge("TraceGraph", c.drive("h_graph", list(exhaustive_simple(c.pick(4, 5)))), what="all edge sequences from one node")
        cases = [rand_simple(c.rng, c.rng.choice([10, 25, 50]), False) for _ in range(c.pick(400, 4000))]
        cases += [rand_simple(c.rng, c.rng.choice([150, 300]), True) for _ in range(c.pick(60, 600))]
        c.judge("TraceGraph", c.drive("h_graph", cases), what="random histories with merges")
        c.judge("TraceGraph", c.drive("h_graph", [two_large(c.rng, c.rng.choice([70, 270])) for _ in range(c.pick(4, 20))]), what="graphs of hundreds of nodes")
        c.assumptions += ["node arguments are nodes of the graph (others are outside the interface)", "edge numbers stay below 2^63; those above 2^31, where TLC's integers end, are moved down in the record"]
    else:
        c.design("MCNamedGraph", note="all named graphs over 3 names with up to 3 edges")
        c.judge("TraceNamedGraph", c.drive("h_graph", list(exhaustive_named(c.pick(4, 5)))), what="all short operation sequences on two names")
        cases = [rand_named(c.rng, c.rng.choice([0, 3, 8, 20, 60])) for _ in range(c.pick(600, 6000))]
        c.judge("TraceNamedGraph", c.drive("h_graph", cases), what="random histories")
