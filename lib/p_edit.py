"""C25: spec/TreeParser.tla against the parser running instructions that alter its tree."""
import json

import gen
import p_parser
from gen import C

WHAT = ["set", "rm", "rm", "keep", "keep", "add", "addkeep"]


def run(c):
    c.build("h_edit")
    rng = c.rng
    c.design("MCTreeParser", c.pick("MCTreeParser.cfg", "MCTreeParser_long.cfg"), seconds=1500, note="small grammars x short scripts x programs that set, remove, add and keep nodes: always a forest, handles stable, open productions stay, the parse goes its way")
    judge(c, [case(rng, p_parser.usable(rng)) for _ in range(c.pick(600, 8000))], "random programs on random grammars")
    judge(c, [case(rng, g, sc[:3] + [sc[0]]) for g, sc in long(rng, c.pick(12, 100))], "long scripts")
    c.assumptions += ["instructions only get at nodes of productions that are matched already (nothing else gives them a handle)"]


def long(rng, n):
    out = []
    for _ in range(n):
        while True:
            g = p_parser.usable(rng)
            s = g.sentence(rng, 40, 300)
            if s and len(s) > 8:
                break
        al = p_parser.alphabet(g)
        out.append((g, [s, g.sentence(rng, 30, 300) or s, p_parser.damaged(rng, s, al)]))
    return out


def op(rng):
    who = rng.choice(["cur", "cur", "kid", "kid", "kept", "kept", "top"])
    what = rng.choice(WHAT if who != "top" else ["add", "addkeep", "addkeep", "rm"])
    d = C(rng.choice(["", "x", "y", "new", "a", "é€"])) if what in ("set", "add", "addkeep") else []
    return {"who": who, "n": rng.choice([0, 0, 0, 1, 1, 2, 5]) if who == "kid" else 0, "what": what, "d": d}


def program(rng, g):
    p = rng.choice([.3, .6, .6, 1])
    tame = rng.random() < .3     # little removal, so that trees grow
    out = []
    for _ in g.prods():
        l = [op(rng) for _ in range(rng.choice([1, 1, 2, 3, 4]) if rng.random() < .96 else rng.randrange(8, 20))] if rng.random() < p else []
        out.append([o for o in l if not (tame and o["what"] == "rm" and rng.random() < .8)])
    return out


def case(rng, g, scripts=None):
    inst = program(rng, g)
    ops = [[" ".join([o["who"], str(o["n"]), o["what"]] + [".".join(map(str, o["d"]))]).rstrip() for o in l] for l in inst]
    text = p_parser.readable(g) and rng.random() < .6
    names = gen.names(rng, g, text, "start" if text else None)
    sc = list(scripts or p_parser.scripts(rng, g, 6, 15))
    out = {"_g": g.g(), "_scripts": sc, "_names": names, "_gram": dict(g.g(), inst=inst)}
    if text:
        secs = {k + 1: "{" + "\n".join(l) + "}" for k, l in enumerate(ops) if l}
        out["_texts"] = [C(gen.rule_text(rng, g, names, gen.order(rng, g), secs))]
    else:
        out["_orders"], out["_ops"] = [gen.order(rng, g)], ops
    return out


def judge(c, cases, what):
    path = c.path("grams.ndjson")
    with open(path, "w") as f:
        for k, x in enumerate(cases):
            x["gram"] = k + 1
            f.write(json.dumps(x["_gram"]) + "\n")
    seen = c.drive("h_edit", cases)
    c.judge("TraceTreeParser", seen, env={"GRAMS": path}, what=what)
    ps = [p for o in seen for p in o.get("parses", ())]
    for k, v in {"parses": len(ps), "accepted": sum(p["ok"] for p in ps), "instructions": sum(len(p["seen"]) for p in ps), "that_did_something": sum(s[2] for p in ps for s in p["seen"])}.items():
        c.detail[k] = c.detail.get(k, 0) + v
