"""C24: spec/Machines.tla against vms::counting_vm and vms::NullVm."""
import json

import gen
import p_parser
import p_rules


def run(c):
    c.build("h_machines")
    rng = c.rng
    c.design("MCMachines", "MCMachines.cfg", seconds=1500, note="small usable grammars x scripts up to 3 characters x both machines: the count is that of the completed productions' instructions")
    judge(c, [case(rng, p_parser.usable(rng)) for _ in range(c.pick(500, 6000))], "histories of parses on one state")
    judge(c, [case(rng, g, sc) for g, sc in p_parser.large(rng, c.pick(8, 60))], "long scripts")
    c.assumptions += ["counts stay far below the limit of the machine's integers"]


def case(rng, g, scripts=None):
    text = p_parser.readable(g) and rng.random() < .7
    p = rng.choice([0, .4, .8, 1])
    sc = list(scripts or p_parser.scripts(rng, g, 6))
    sc += [rng.choice(sc) for _ in range(2)]
    out = {"machine": rng.choice(["count", "count", "null"]), "first": 0, "_from": str(rng.choice([0, 0, 1, 41, 250, 32765, 65530, 2**31 - 3, 2**32 - 3, 2**53 - 2, 2**63 - 4, 2**63 + 5])), "_g": g.g(), "_scripts": sc, "_route": "text" if text else "data"}
    names = gen.names(rng, g, text, "start" if text else None)
    out["_names"] = names
    if text:
        n = [1 if rng.random() < p else 0 for _ in g.prods()]
        secs = {k: "{" + p_rules.w(rng) + p_rules.section(rng) + "}" for k in g.prods() if n[k - 1]}
        out["_texts"] = [gen.C(gen.rule_text(rng, g, names, gen.order(rng, g), secs))]
    else:
        n = [rng.choice([1, 1, 2, 3] if rng.random() < .95 else [9, 17, 40, 70]) if rng.random() < p else 0 for _ in g.prods()]
        out["_orders"], out["_n"] = [gen.order(rng, g)], n
    out["_gram"] = dict(g.g(), n=n)
    return out


def judge(c, cases, what):
    path = c.path("grams.ndjson")
    with open(path, "w") as f:
        for k, x in enumerate(cases):
            x["gram"] = k + 1
            f.write(json.dumps(x["_gram"]) + "\n")
    seen = c.drive("h_machines", cases)
    c.judge("TraceMachines", seen, env={"GRAMS": path}, what=what)
    c.detail["parses"] = c.detail.get("parses", 0) + sum(len(o.get("parses", ())) for o in seen)
    c.detail["instructions_counted"] = c.detail.get("instructions_counted", 0) + sum(p["after"] - p["before"] for o in seen for p in o.get("parses", ()))
