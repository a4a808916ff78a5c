"""C14, C15: tree::Tree against spec/Tree.tla."""


def rand_case(rng, n, all_every, dense):
    """A long random history that keeps reusing slots and stale handles."""
    ops, known, data = [], 0, 0
    style = rng.random()
    for k in range(n):
        r = rng.random()
        def ref():
            x = rng.random()
            if known == 0 or x < 0.02:
                return [rng.randrange(0, 6), rng.randrange(0, 12)]
            if x < 0.5:
                return known - 1 - min(known - 1, int(rng.expovariate(0.4)))
            return rng.randrange(known)
        if known == 0 or r < (0.5 if style < 0.5 else 0.35):
            p = -1 if (known == 0 or rng.random() < 0.12) else ref()
            data += 1
            ops.append(["add", p, data])
            known += 1          # a refused addition returns none: the numbering then refers to no handle
        elif r < (0.62 if style < 0.5 else 0.6):
            ops.append(["rm", ref()])
        elif r < 0.66:
            data += 1
            ops.append(["set", ref(), data])
        elif r < 0.72:
            ops.append([rng.choice(["get", "getm", "has"]), ref()])
        elif r < 0.8:
            ops.append([rng.choice(["kids", "desc"]), ref()])
        elif r < 0.9:
            ops.append(["nth", ref(), rng.choice([0, 0, 1, 1, 2, 3, 4, 7])])
        else:
            ops.append(["path", ref(), [rng.choice([0, 0, 0, 1, 1, 2, 3]) for _ in range(rng.randrange(0, 5))]])
        if dense or k % all_every == all_every - 1:
            ops.append(["all"])
    ops.append(["all"])
    return {"ops": ops}


def shaped(rng, n):
    """Wide and deep shapes with removals at the first, a middle and the last child."""
    ops, ids = [["add", -1, 1]], [0]
    kids, d = {0: []}, 1
    for _ in range(n):
        p = rng.choice([0, ids[-1], rng.choice(ids)])
        d += 1
        k = len([o for o in ops if o[0] == "add"])
        ops.append(["add", p, d])
        ids.append(k)
        kids[k] = []
        kids[p].append(k)
    def gone(k):
        ids.remove(k)
        for x in list(kids[k]):
            gone(x)
        kids[k] = []
    while len(ids) > 1 and rng.random() < 0.97:
        cand = [k for k in ids if kids[k]]
        p = rng.choice(cand)
        x = rng.choice([kids[p][0], kids[p][-1], rng.choice(kids[p])])
        ops.append(["rm", x])
        kids[p].remove(x)
        gone(x)
        ops.append(["kids", p])
        for q in range(len(kids[p]) + 2):
            ops.append(["nth", p, q])
        if rng.random() < 0.5:
            d += 1
            k = len([o for o in ops if o[0] == "add"])
            q = rng.choice([p, rng.choice(ids)])
            ops.append(["add", q, d])
            ids.append(k)
            kids[k] = []
            kids[q].append(k)
            ops.append(["kids", q])
        if rng.random() < 0.25:
            ops.append(["all"])
        a = rng.choice(ids)
        ops.append(["path", a, [rng.randrange(3) for _ in range(rng.randrange(1, 4))]])
    ops.append(["all"])
    return {"ops": ops}


def wide(rng, n):
    """One node with many children, some of which go."""
    ops = [["add", -1, 0], ["add", 0, 1], ["add", 0, 2]] + [["add", 1, k] for k in range(n)]
    look = lambda: [["kids", 1]] + [["nth", 1, q] for q in [0, 1, n - 1, n, n + 1] + rng.sample(range(n), 8)] + [["path", 0, [0, rng.randrange(n)]] for _ in range(4)]
    ops += look()
    gone = rng.sample(range(3, n + 3), rng.choice([1, 2, n // 2, n - 1]))
    for k in gone:
        ops.append(["rm", k])
        if rng.random() < .1:
            ops += look()
    ops += look()
    ops += [["add", rng.choice([1, 1, 2]), 1000 + k] for k in range(rng.choice([1, 3, n]))]
    return {"ops": ops + look() + [["desc", 0], ["all"]]}


def deep(rng, n):
    """A chain, as scripts of lists make it, with a few nodes beside it."""
    ops = [["add", -1, 0]] + [["add", k, k + 1] for k in range(n)]
    for _ in range(3):
        ops.append(["add", rng.randrange(n), n])
    cut = rng.randrange(n // 2, n - 1)
    ops += [["desc", 0], ["desc", n // 3], ["path", 0, [0] * (n // 2)], ["kids", n - 1], ["rm", cut], ["has", n], ["get", cut - 1], ["get", cut], ["desc", 0], ["desc", cut], ["rm", 0], ["has", 1], ["desc", 0]]
    return {"ops": ops}


def churn(rng, most):
    """A few nodes that stay, and many that come and go."""
    ops, known = [], 0
    for _ in range(rng.randrange(1, 6)):
        for _ in range(rng.randrange(1, 6)):
            if known and rng.random() < .3:
                ops.append(["rm", rng.randrange(known)])
            ops.append(["add", rng.choice([-1] + list(range(known))), 100 + known])
            known += 1
        ops.append(["churn", rng.choice([-1, -1] + list(range(known))), rng.choice([1, 5, 70, 300, 1100, most])])
        ops.append(["all"])
    return {"ops": ops}


def run(c):
    c.build("h_tree")
    aspect = "handles" if c.prop == "C14" else "structure"
    c.design("MCTree", note="every forest history with up to 5 additions")
    c.design("TreeImpl", note="slots, links, free list and keys refine the abstract forest, up to 5 additions")
    gen = []
    d = c.pick(5, 6)
    for h in c.behaviours("GenTree", "GenTree.cfg" if c.quick() else "GenTree6.cfg"):
        ops, k = [], 0
        for a in h:
            k += 1
            ops.append([a[0], a[1], 100 + k] if a[0] == "add" else [a[0], a[1]])
            ops.append(["all"])
        gen.append({"ops": ops})
    env = {"ASPECT": aspect}
    c.judge("TraceTree", c.drive("h_tree", gen), env, what=f"all histories of length {d} generated by TLC")
    rnd = [rand_case(c.rng, c.rng.choice([8, 15, 30]), 5, True) for _ in range(c.pick(300, 3000))]
    rnd += [rand_case(c.rng, c.rng.choice([60, 120]), 15, False) for _ in range(c.pick(60, 600))]
    rnd += [shaped(c.rng, c.rng.choice([4, 8, 16, 30])) for _ in range(c.pick(150, 1500))]
    rnd += [wide(c.rng, c.rng.choice([12, 20, 40, 70])) for _ in range(c.pick(16, 200))]
    c.judge("TraceTree", c.drive("h_tree", rnd), env, what="random histories")
    c.judge("TraceTree", c.drive("h_tree", [deep(c.rng, 300) for _ in range(c.pick(2, 8))], extra_env={"CONFORM_STACK": "49152"}), env, what="deep trees, on a small stack")
    c.judge("TraceTree", c.drive("h_tree", [churn(c.rng, c.pick(66000, 300000)) for _ in range(c.pick(40, 300))]), env, what="many thousand short-lived nodes")
    c.assumptions += ["handles of different trees are not mixed", "node data are integers (the tree is generic)"]
