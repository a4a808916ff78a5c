"""C05 FIRST, C06 FOLLOW, C07 tables: spec/LL1.tla against first_sets, follow_sets, steuer_sets, steuer_map."""
import gen


def case(rng, g, text):
    nm = gen.names(rng, g, text)
    c = {"g": g.g(), "names": nm, "runs": 2}
    pool = [s for k in g.prods() for a in g.alts[k - 1] for s in a] + [["t", []], ["t", [97]], ["t", [8364, 97]]]
    pool = [s for s in pool if s[0] == "t" or g.defs[s[1] - 1]] + [["n", k] for k in g.prods() if g.defs[k - 1]]
    c["partials"] = [[rng.choice(pool) for _ in range(rng.choice([1, 1, 2, 3, 5]))] for _ in range(3)]
    for k in rng.sample(list(g.prods()), min(2, len(g.alts))):      # rests of alternatives
        for a in g.alts[k - 1]:
            if a:
                q = a[rng.randrange(len(a)):]
                if all(s[0] == "t" or g.defs[s[1] - 1] for s in q):
                    c["partials"].append(q)
    orders = [gen.order(rng, g) for _ in range(2)]
    if text:
        c["_texts"] = [gen.C(gen.rule_text(rng, g, nm, o)) for o in orders]
    else:
        c["_orders"] = orders
        c["_first"] = [rng.choice(pool) for _ in range(rng.choice([0, 0, 2, 6]))]
    return c


def readable(g):
    """can be written as rule text: no quote or backslash in terminals, every production defined or used"""
    return all(s[0] == "n" or not set(s[1]) & {34, 92} for k in g.prods() for a in g.alts[k - 1] for s in a)


def grammars(rng, n):
    out = []
    usable = None
    for _ in range(n):
        r = rng.random()
        if r < 0.2:
            g = gen.small(rng)
        elif r < 0.5:
            g = gen.careful(rng)
            if g.usable():
                usable = g
        elif r < 0.75:
            g = gen.families(rng)
        elif usable is not None:
            g = gen.mutated(rng, usable)
        else:
            g = gen.careful(rng, 2)
        out.append(g)
    # enough of those that can be used
    while sum(1 for g in out if g.usable()) < n // 2:
        g = gen.careful(rng) if rng.random() < 0.6 else gen.families(rng)
        if g.usable():
            out.append(g)
    return out


def wide(rng):
    """Many alternatives that differ in what they start with, long alternatives, long words."""
    T, N = gen.T, gen.N
    al = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789äßЖ字é€😀"
    n = rng.choice([12, 20, 40, 66])
    start = rng.sample(al, n)
    alts = [[[N(2), N(1)], []], [[T(x * rng.choice([1, 1, 1, 20]))] + [rng.choice([T(rng.choice(al)), N(3), N(4)]) for _ in range(rng.choice([0, 1, 2, 20 if rng.random() < .1 else 3]))] for x in start],
            [[T("!")], []], [[T("?" * 15)], [N(3), T("+")]]]
    if rng.random() < .3:
        alts[1].append([T(rng.choice(start))])
    if rng.random() < .3:
        alts[1].append([])
    g = gen.Gram(alts, rng.choice([1, 1, 2]))
    return gen.shuffled(rng, g)


def nested(rng, n):
    """Each production starts with the next one."""
    T, N = gen.T, gen.N
    alts = [[[N(k + 1)]] for k in range(1, n)] + [[[T("a")]]]
    for _ in range(n // 3):
        k = rng.randrange(n - 1)
        alts[k] = rng.choice([[[N(k + 2), T(rng.choice("xy"))]], [[N(k + 2)], [T("b")]], [[N(k + 2)]]])
    if rng.random() < .3:
        alts[-1].append([])
    if rng.random() < .3:
        alts[-1].append([N(rng.randrange(1, n))])
    return gen.Gram(alts, 1)


def run(c):
    c.build("h_ll1")
    c.design("MCLL1", "MCLL1_full.cfg", note="all grammars of 2 productions with up to 2 alternatives of up to 2 symbols: sets in any order of computation, FIRST by derivations, FOLLOW by adjacency")
    if not c.quick():
        c.design("MCLL1", "MCLL1_three.cfg", seconds=1200, note="random grammars of 3 productions")
    cases = []
    for g in grammars(c.rng, c.pick(1200, 12000)):
        cases.append(case(c.rng, g, readable(g) and c.rng.random() < 0.4))
    big = 0
    while big < c.pick(25, 250):       # larger ones
        g = gen.careful(c.rng, c.rng.randrange(9, 16))
        if g.usable() or c.rng.random() < 0.2:
            cases.append(case(c.rng, g, False))
            big += 1
    for _ in range(c.pick(12, 120)):    # many alternatives, long ones, long words
        cases.append(case(c.rng, wide(c.rng), False))
    c.detail["usable_grammars"] = sum(1 for x in cases if gen.Gram(x["g"]["alts"], x["g"]["start"], defs=x["g"]["def"]).usable())
    c.judge("TraceLL1", c.drive("h_ll1", cases), env={"ASPECT": c.prop}, what="grammars, each built twice in different orders")
    deep = [case(c.rng, nested(c.rng, 160), False) for _ in range(c.pick(3, 12))]
    c.judge("TraceLL1", c.drive("h_ll1", deep, extra_env={"CONFORM_STACK": "65536"}), env={"ASPECT": c.prop}, what="grammars nested deeply, on a small stack")
