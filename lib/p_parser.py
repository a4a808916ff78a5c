"""C01-C04, C22: spec/Parser.tla against script_parser."""
import copy
import itertools
import json

import gen
from gen import C, N, T

LABELS = ["a", "b", "c", "run", "x1", "print it", "a", "Add 1"]


def alphabet(g):
    return sorted({x for k in g.prods() for a in g.alts[k - 1] for s in a if s[0] == "t" for x in s[1]}) or [97]


def alike(rng, x):
    """A character that could be taken for x."""
    y = rng.choice([x ^ 32, x + 1, x - 1, x + 256, x + 65536, x ^ 64, x & 127, 0xff00 + x - 32, ord(chr(x).swapcase()[0])])
    return y if 0 <= y < 0x110000 and not 0xd800 <= y < 0xe000 else x


def damaged(rng, w, al):
    w = w[:]
    if w and rng.random() < 0.15:
        k = rng.randrange(len(w))
        w[k] = alike(rng, w[k])
        return w
    for _ in range(rng.choice([1, 1, 1, 2])):
        r = rng.random()
        x = rng.choice(al) if rng.random() < 0.8 else rng.choice([35, 8364, 32, 97, 0])
        k = rng.randrange(len(w) + 1)
        if r < 0.3:
            w.insert(k, x)
        elif r < 0.55 and w:
            w[k % len(w)] = x
        elif r < 0.8 and w:
            del w[k % len(w)]
        elif r < 0.9 and len(w) > 1:
            a, b = rng.randrange(len(w)), rng.randrange(len(w))
            w[a], w[b] = w[b], w[a]
        else:
            w += w[: rng.randrange(len(w) + 1)]
    return w


def scripts(rng, g, n, size=60):
    al = alphabet(g)
    out = [[]] if rng.random() < 0.5 else []
    pool = [s for s in (g.sentence(rng, rng.choice([0, 1, 2, 4, 8, 15, size]), 40 * size) for _ in range(4)) if s is not None]
    while len(out) < n:
        r = rng.random()
        if r < 0.3:
            s = g.sentence(rng, rng.choice([0, 2, 5, 10, 20, size]), 40 * size)
            if s is not None:
                out.append(s)
                pool.append(s)
                continue
        if not pool or r < 0.38:
            out.append([rng.choice(al) for _ in range(rng.randrange(0, 7))])
            continue
        s = rng.choice(pool)
        if r < 0.55:
            out.append(s[: rng.randrange(len(s) + 1)])
        elif r < 0.65:
            out.append(s + rng.choice(pool)[:3])
        elif r < 0.72:
            out.append(s + [rng.choice(al + [32, 35, 10])])
        else:
            out.append(damaged(rng, s, al))
    return out


def readable(g):
    return all(s[0] == "n" or not set(s[1]) & {34, 92} for k in g.prods() for a in g.alts[k - 1] for s in a)


def instructions(rng, g, much=0.6):
    p = rng.choice([0, much, much, 1])
    return [[rng.choice(LABELS) for _ in range(rng.choice([1, 1, 2, 3]) if rng.random() < .96 else rng.randrange(8, 40))] if rng.random() < p else [] for _ in g.prods()]


def sections(rng, inst):
    out = {}
    for k, l in enumerate(inst):
        if l:
            out[k + 1] = "{" + ";".join(rng.choice(["", " ", "\n "]) + x for x in l) + rng.choice(["", ";", " ; "]) + "}"
        elif rng.random() < 0.2:
            out[k + 1] = "{" + rng.choice(["", " ", "\n"]) + "}"
    return out


class Book:
    """The grammars of a judgement and the cases on them."""
    def __init__(self):
        self.grams, self.cases = [], []

    def add(self, rng, g, scripts, inst=None, routes=("text", "data", "read", "tables"), fresh=True, several=1, sep=None):
        inst = inst if inst is not None else instructions(rng, g)
        self.grams.append(dict(g.g(), inst=inst))
        gi = len(self.grams)
        for _ in range(several):
            self.cases.append(self.case(rng, g, gi, scripts, inst, routes, fresh))
        return gi

    def case(self, rng, g, gi, scripts, inst, routes, fresh):
        routes = [r for r in routes if r in ("data", "tables") or readable(g)] or ["data"]
        route = rng.choice(routes)
        text = route in ("text", "read") or route == "tables" and readable(g) and rng.random() < 0.5
        nm = gen.names(rng, g, text, "start" if route in ("text", "tables") else rng.choice([None, None, "start"]))
        if route not in ("text", "tables") and rng.random() < 0.2 and len(nm) > 1:     # "start" is another production
            k = rng.choice([k for k in range(len(nm)) if k != g.start - 1])
            if C("start") not in nm:
                nm[k] = C("start")
        c = {"gram": gi, "_g": g.g(), "_names": nm, "_route": route, "_inst": inst, "_scripts": scripts, "_fresh": fresh}
        orders = [gen.order(rng, g) for _ in range(2)]
        if text:
            c["_texts"] = [C(gen.rule_text(rng, g, nm, o, sections(rng, inst))) for o in orders]
        else:
            c["_orders"] = orders
            if rng.random() < 0.3:
                c["_first"] = [["t", [122]]] * rng.randrange(1, 3) + [["n", k] for k in rng.sample(list(g.prods()), rng.randrange(0, len(g.alts)))]
        return c

    def judge(self, c, what, extra=None):
        path = c.path("grams.ndjson")
        with open(path, "w") as f:
            for g in self.grams:
                f.write(json.dumps(g) + "\n")
        seen = c.drive("h_parser", self.cases, extra_env=extra)
        c.detail["parses"] = c.detail.get("parses", 0) + sum(len(o.get("parses", ())) for o in seen)
        c.detail["accepted_scripts"] = c.detail.get("accepted_scripts", 0) + sum(1 for o in seen for p in o.get("parses", ()) if p["res"]["ok"])
        c.judge("TraceParser", seen, env={"GRAMS": path, "ASPECT": c.prop}, what=what)


def usable(rng):
    while True:
        r = rng.random()
        g = gen.careful(rng) if r < 0.55 else gen.families(rng) if r < 0.95 else gen.small(rng)
        if not g.usable():
            continue
        if rng.random() < 0.7:
            t = g.trim()
            if t is None or not t.usable():
                continue
            g = t
        if g.sentence(rng, 3) is None and rng.random() < 0.8:
            continue
        return g


def exhaustive(c, book, which, n, length):
    """Small grammars enumerated by TLC from the specification with all scripts up to a length."""
    alts = c.behaviours("GenGrammars", f"GenGrammars_{which}.cfg")
    c.rng.shuffle(alts)
    for a in alts[:n]:
        g = gen.Gram(a, 1)
        sc = [list(x) for m in range(length + 1) for x in itertools.product([97, 98], repeat=m)]
        if c.prop == "C22":
            c.rng.shuffle(sc)
        book.add(c.rng, g, sc, fresh=c.prop != "C22" or c.rng.random() < 0.2)


def large(rng, n):
    """Deep nesting, long lists, long words, wide alternatives."""
    out = []
    for k in range(n):
        f = k % 6
        m = rng.choice([60, 150, 300])
        if f == 0:
            g = gen.Gram([[[T("("), N(1), T(")")], []]])
            s = C("(" * m + ")" * m)
        elif f == 1:
            g = gen.Gram([[[N(2), N(1)], []], [[T("a"), T(";")], [T("bc")]]])
            s = C("".join(rng.choice(["a;", "bc"]) for _ in range(m)))
        elif f == 2:
            w = "".join(rng.choice("abcdefgh_ é") for _ in range(m))
            g = gen.Gram([[[N(2), T(w), N(2)]], [[T("x" * 13)], []]])
            s = C(rng.choice(["x" * 13, ""]) + w + rng.choice(["x" * 13, ""]))
        elif f == 3:
            g = gen.Gram([[[N(3), N(2)]], [[T("+"), N(3), N(2)], []], [[N(5), N(4)]], [[T("*"), N(5), N(4)], []], [[T("("), N(1), T(")")], [T("i")], [T("-"), N(5)]]])
            s = g.sentence(rng, m, 100000)
        elif f == 4:
            wide = rng.randrange(20, 60)
            g = gen.Gram([[[N(2 + i % 3) for i in range(wide)]], [[T("a")]], [[T("b")], []], [[T("c"), T("c")]]])
            s = g.sentence(rng, 2 * wide, 100000)
        else:
            g = gen.careful(rng, rng.randrange(10, 20))
            while not g.usable() or not g.sentence(rng, 40):
                g = gen.careful(rng, rng.randrange(10, 20))
            s = g.sentence(rng, m, 20000) or g.sentence(rng, 5)
        al = alphabet(g)
        sc = [s] + [damaged(rng, s, al) for _ in range(3)] + [s[: rng.randrange(len(s) + 1)] for _ in range(2)] + [s + [rng.choice(al)], s[:-1], s[1:]]
        out.append((g, sc))
    return out


def huge(rng):
    """Scripts longer than 65 536 characters, and a list of more than a thousand items."""
    words = ["".join(rng.choice("abcdefgh é") for _ in range(1100)) for _ in range(2)]
    g = gen.Gram([[[N(2), N(1)], []], [[T("1" + words[0])], [T("2" + words[1]), N(3)]], [[T("!")], []]])
    s = C("".join(rng.choice(["1" + words[0], "2" + words[1], "2" + words[1] + "!"]) for _ in range(61)))
    bad = s[:]
    bad[-rng.randrange(1, 900)] = 63
    yield g, [s, bad, s + [63]]
    g = gen.Gram([[[N(2), T(";"), N(1)], []], [[T("a")], [T("b"), N(3)]], [[T("c")], []]])
    s = C("".join(rng.choice(["a;", "b;", "bc;"]) for _ in range(1060)))
    yield g, [s, s[:-1] + [97]]


def deep(rng, n):
    """Scripts that nest deeply, for parsers with little stack."""
    out = []
    m = 800
    for k in range(n):
        if k % 3 == 0:
            g = gen.Gram([[[T("a"), N(1)], [T("b;")]]])
            s = C("a" * m + "b;")
        elif k % 3 == 1:
            g = gen.Gram([[[N(2), N(1)], []], [[T("xyz")]]])
            s = C("xyz" * m)
        else:
            g = gen.Gram([[[T("("), N(1), T(")")], [T("i")]]])
            s = C("(" * (m // 2) + "i" + ")" * (m // 2))
        r = rng.randrange(m)
        out.append((g, rng.choice([[s], [s[:-1]], [s[:m - r % 10] + C("?") + s[m - r % 10:]]])))
    return out


def run(c):
    c.build("h_parser")
    note = "small usable grammars x scripts up to 4 characters: accepts = derivable, error = longest viable prefix, tree = derivation, runs once and in time, never stuck"
    for cfg in c.pick(["quick", "empty"], ["full", "words", "empty", "three", "stops"]):
        c.design("MCParser", f"MCParser_{cfg}.cfg", note=note, seconds=1500)
    b = Book()
    if c.prop == "C22":
        histories(c, b)
    else:
        exhaustive(c, b, "ab", c.pick(120, 4000), c.pick(4, 6))
        exhaustive(c, b, "words", c.pick(60, 2000), c.pick(4, 6))
        exhaustive(c, b, "empty", c.pick(20, 500), 4)
        if not c.quick():
            exhaustive(c, b, "three", 2000, 5)
    b.judge(c, "grammars enumerated by TLC with all short scripts")
    b = Book()
    for _ in range(c.pick(400, 5000)):
        g = usable(c.rng)
        b.add(c.rng, g, scripts(c.rng, g, 8), fresh=c.prop != "C22", several=2 if c.prop == "C22" else 1)
    b.judge(c, "random grammars with sentences and damaged sentences")
    b = Book()
    for g, sc in large(c.rng, c.pick(12, 90)):
        b.add(c.rng, g, sc, fresh=c.prop != "C22")
    b.judge(c, "long scripts, deep nesting, long words")
    b = Book()
    for g, sc in huge(c.rng):
        b.add(c.rng, g, sc, fresh=False)
    b.judge(c, "scripts of more than 65 536 characters, lists of more than 1 000 items")
    b = Book()
    for g, sc in deep(c.rng, c.pick(6, 30)):
        b.add(c.rng, g, sc, inst=[[] for _ in g.prods()], routes=("text", "data", "read"))
    b.judge(c, "scripts nested hundreds deep, on a small stack", {"CONFORM_STACK": "131072"})


def histories(c, b):
    exhaustive(c, b, "ab", c.pick(100, 2000), c.pick(4, 5))
    for _ in range(c.pick(150, 2000)):
        g = usable(c.rng)
        sc = scripts(c.rng, g, 5)
        # the same few scripts again and again, on several parsers of the same grammar
        b.add(c.rng, g, [c.rng.choice(sc) for _ in range(c.rng.choice([4, 8, 20]))], fresh=False, several=3)
