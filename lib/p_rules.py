"""C08-C11: spec/RuleText.tla against rule_parsing."""
import itertools

import gen
from gen import C

WS = " \n\t\r\u00a0\u2003\u3000\u0085\u000b"
NAMES = ["start", "a", "b", "Ab", "x_1", "s", "IGNORE", "ignore", "äß", "Ж", "a1", "a_", "start1", "字", "ªx", "aª\u00b2", "ws", "n", "element_2", "A٣"]
TERMS = ["a", "b", "start", "ab", "", "#", "|", ";", "->", " ", "\n", "{}", "$", "[x]", "\\\"", "\\\\", "a\\\"b", "\\n", "\\\\\\\"", "x\\", "$IGNORE: a;", "8€", "\U0001F600", "'", "a -> b;", "}", "{", "\u0301e", "ws", ":", "\0"]
TERMS = [t for t in TERMS if not (len(t) - len(t.rstrip("\\"))) % 2]
SECTIONS = ["", "Add;", "PushConst 1; Add;", "x", "a b c", "\\}", "\\}x", "x\\}", "\\\\}"[:2], "{", "{{", "a;b;c", "# | ; \" -> $", "\\", "\\x", "\n a \n", "é€", "\"", "\\}\\}", "a\\}b\\}c", "x;y\\};z", "\\\\", " trailing  ", "}"[:0], "a\\\\x"]
PLAN = ["next", "peek", "peekm", "nif", "nif0", "neq", "brace", "back", "nbrace", "nested"]


def w(rng, must=False, much=0.35):
    if rng.random() < much:
        return "".join(rng.choice(WS if rng.random() < .3 else " \n") for _ in range(rng.randrange(1, 4)))
    return " " if must else ""


def section(rng):
    r = rng.random()
    if r < 0.5:
        s = rng.choice(SECTIONS)
    else:
        s = "".join(rng.choice(["a", "b;", "\\}", "\\", "{", " ", "\\\\", "#", "\n", "€"]) for _ in range(rng.randrange(0, 9)))
    while s.endswith("\\"):     # the brace after it would be part of the section
        s = s[:-1]
    return s


def rule_file(rng, size, ignore=0.0, sections=0.3, names=None, dangling=0.05):
    """A well-formed rule file. ignore: how often ignore settings appear."""
    pool = names or rng.sample(NAMES, rng.randrange(1, min(8, size + 3)))
    large = rng.random() < .02 and size < 10
    if large and not names:
        pool = pool + ["".join(rng.choice("abcXYZ_019ß") for _ in range(rng.choice([9, 17, 33, 70]))) for _ in range(8)]
        pool = [p if p[0] not in "_019" else "q" + p for p in pool]
    out = w(rng)
    n = rng.randrange(0, size + 1)
    used = set()
    deft = list(pool)

    def alternative():
        if rng.random() < 0.15:
            return "#"
        s, prev = "", None
        for _ in range(rng.choice([1, 1, 2, 2, 3, 4, 7]) if not large else rng.randrange(1, 40)):
            if rng.random() < 0.5:
                x = rng.choice(pool)
                used.add(x)
                s += (w(rng, prev == "n") if prev else "") + x
                prev = "n"
            else:
                s += (w(rng) if prev else "") + '"' + rng.choice(TERMS) * (1 if not large else rng.choice([1, 1, 9, 30])) + '"'
                prev = "t"
        return s
    done = set()
    for k in range(n):
        if rng.random() < ignore * 0.5:
            x = rng.choice(pool)
            used.add(x)
            out += "$IGNORE" + w(rng) + ":" + w(rng) + x + w(rng) + ";" + w(rng)
        name = rng.choice(deft) if rng.random() < 0.7 else deft[k % len(deft)]
        done.add(name)
        out += definition(rng, name, [alternative() for _ in range(rng.choice([1, 1, 2, 3, 5]) if not large or rng.random() < .8 else 30)], pool, used, ignore, sections)
    # define what has been used, mostly
    for x in sorted(used - done):
        if rng.random() >= dangling:
            out += definition(rng, x, [alternative() if rng.random() < .5 else rng.choice(["#", '"' + rng.choice(TERMS) + '"']) for _ in range(rng.choice([1, 2]))], pool, set(), ignore, sections)
    if rng.random() < ignore * 0.2:
        out += "$IGNORE: " + rng.choice(pool) + ";"
    return out


def definition(rng, name, alts, pool, used, ignore, sections):
    ovr = ""
    if rng.random() < ignore * 0.5:
        x = rng.choice(pool + ["#"])
        if x != "#":
            used.add(x)
        ovr = "$[IGNORE" + w(rng) + ":" + x + "]" + w(rng)
    elif rng.random() < 0.02:
        ovr = "$[OTHER" + w(rng) + ":]"
    s = name + w(rng) + "->" + w(rng) + ovr + (w(rng) + "|" + w(rng)).join(alts) + w(rng)
    if rng.random() < sections:
        s += "{" + w(rng) + section(rng) + "}" + w(rng)
    return s + ";" + w(rng)


BITS = ["->", "-", ">", ";", "|", "#", "\"", "\\", "{", "}", "$", "[", "]", ":", "$IGNORE", "$[IGNORE:", "a", "start", " ", "\n", "1", "_", "\"b\"", "€", "-> #;", "$[", "$IGNORE: a;", "{}", "{x}", "a -> \"b\";"]


def damaged(rng, t):
    for _ in range(rng.choice([1, 1, 1, 1, 2, 3])):
        k = rng.randrange(len(t) + 1)
        r = rng.random()
        if r < 0.35:
            t = t[:k] + t[k + 1:]
        elif r < 0.65:
            t = t[:k] + rng.choice(BITS) + t[k:]
        elif r < 0.85:
            t = t[:k] + rng.choice(BITS) + t[k + 1:]
        elif r < 0.95:
            t = t[:k]
        else:
            j = rng.randrange(len(t) + 1)
            t = t[:min(k, j)] + t[max(k, j):]
    return t


def case(rng, t, upto=-1, fail=0, plan=None):
    return {"t": C(t), "vm": {"upto": upto, "fail": fail}, "_plan": plan or ([rng.choice(PLAN)] if rng.random() < .4 else [rng.choice(PLAN) for _ in range(rng.randrange(1, 6))])}


def vm_errors(rng, n):
    """The VM finds fault with a section, at its end or somewhere inside."""
    for _ in range(n):
        k = rng.randrange(1, 4)
        t = rule_file(rng, rng.choice([1, 2, 4]), 0, .9)
        yield dict(case(rng, t, upto=rng.choice([-1, 0, 1, 2, 3, 5]) , fail=k), _lexical=1)


def cut_everywhere(rng, n):
    for _ in range(n):
        t = rule_file(rng, 2, 0.4, 0.6, rng.sample(NAMES, 2))
        for k in range(len(t)):
            yield case(rng, t[:k])


def soup(rng):
    return "".join(rng.choice(BITS) for _ in range(rng.randrange(0, 14)))


def far(rng, make):
    """Texts of more than 65 536 characters, most of them blanks, or in a section."""
    pad = rng.choice([" ", "\n", " \u3000"]) * 66000
    yield case(rng, pad[:66000 + rng.randrange(300)] + make())
    if rng.random() < .5:
        yield case(rng, make() + " " * 70000 + make())
    yield case(rng, 'a -> "b" {' + rng.choice(["ab;€", "x\\}", "Add;\n"]) * 17000 + rng.choice(["};", "}", "};"]) + make())


def small_texts(rng, n):
    """A sample of all short texts, behind beginnings that reach every part of a definition."""
    pre = ["", "a->", "a->\"b\"", "a->b{", "$IGNORE", "$IGNORE:a", "a->$[IGNORE", "a->#;", "a->$[IGNORE:a]", "a->\"", "a -> b |"]
    for _ in range(n):
        yield case(rng, rng.choice(pre) + "".join(rng.choice("a1->#;\"\\|${}:[] \n_") for _ in range(rng.randrange(0, 6))) + rng.choice(["", "", ";", "\";", "};"]))


def run(c):
    c.build("h_rules")
    rng = c.rng
    c.design("MCRuleText", "MCRuleText_plain.cfg", note="all texts up to 6 characters of 6 kinds: ends, error place exact, acceptance spells the text")
    c.design("MCRuleText", "MCRuleText_deep.cfg", note="all texts up to 4 characters of 9 kinds behind 6 beginnings, 3 ways a VM reads")
    if not c.quick():
        c.design("MCRuleText", "MCRuleText_long.cfg", seconds=1500, note="all texts up to 7 characters of 7 kinds")
    env = {"ASPECT": c.prop}
    n = c.pick(1, 12)

    def judge(cases, what, extra=None):
        c.judge("TraceRuleText", c.drive("h_rules", list(cases), extra_env=extra), env=env, what=what)
    if c.prop == "C08":
        judge((case(rng, rule_file(rng, rng.choice([1, 2, 3, 5, 8]))) for _ in range(1500 * n)), "random rule files")
        judge((case(rng, rule_file(rng, 40, sections=.1)) for _ in range(15 * n)), "long rule files")
        judge(small_texts(rng, 1500 * n), "short texts")
        judge((case(rng, damaged(rng, rule_file(rng, 3))) for _ in range(500 * n)), "slightly changed rule files")
    elif c.prop == "C09":
        judge(cut_everywhere(rng, 15 * n), "rule files cut at every place")
        judge((case(rng, damaged(rng, rule_file(rng, rng.choice([1, 2, 4, 6]), rng.choice([0, .5]), .4)), fail=rng.choice([0] * 9 + [1, 2])) for _ in range(2000 * n)), "damaged rule files")
        judge(vm_errors(rng, 400 * n), "the VM finds fault with a section")
        judge((case(rng, soup(rng)) for _ in range(800 * n)), "sequences of symbols")
        judge(small_texts(rng, 1500 * n), "short texts")
        judge((case(rng, damaged(rng, rule_file(rng, 30, .3, .2))) for _ in range(10 * n)), "long damaged rule files")
    elif c.prop == "C10":
        judge((case(rng, rule_file(rng, rng.choice([2, 3, 5, 8]), rng.choice([.5, 1, 1.5]), .1)) for _ in range(2200 * n)), "random rule files with ignore settings")
        judge((case(rng, chain(rng)) for _ in range(300 * n)), "productions reachable from the ignored one")
        judge((case(rng, rule_file(rng, 40, 1, .1)) for _ in range(10 * n)), "long rule files with ignore settings")
        judge((case(rng, nested(rng, 100)) for _ in range(2 * n)), "an ignored production that nests deeply, on a small stack", {"CONFORM_STACK": "32768"})
        judge((case(rng, damaged(rng, rule_file(rng, 4, 1, .1))) for _ in range(400 * n)), "slightly changed rule files")
    else:
        judge((case(rng, rule_file(rng, rng.choice([1, 2, 4, 6]), rng.choice([0, 0, .5]), .9)) for _ in range(1500 * n)), "random rule files, sections read whole")
        judge((case(rng, rule_file(rng, rng.choice([1, 2, 3]), 0, .9), upto=rng.randrange(0, 6)) for _ in range(800 * n)), "sections read in part")
        judge((case(rng, rule_file(rng, rng.choice([1, 2, 3]), 0, .9), fail=rng.randrange(1, 4)) for _ in range(200 * n)), "the VM fails")
        judge((case(rng, damaged(rng, rule_file(rng, 2, 0, .9))) for _ in range(600 * n)), "damaged rule files with sections")
        texts = [x for k in range(0, 5) for x in itertools.product("a\\};", repeat=k)]
        rng.shuffle(texts)
        judge((case(rng, "a->b{" + "".join(x) + "};" + rng.choice(["", "b->#{}"]) + "a->#;", plan=[p], upto=rng.choice([-1, -1, -1, 1, 2]))
               for p in PLAN for x in texts[: c.pick(80, 341)]), "short sections, each way of reading")
    judge(far(rng, lambda: rule_file(rng, 2, .5, .5) if c.prop != "C09" else damaged(rng, rule_file(rng, 2, .5, .5))), "texts of more than 65 536 characters")
    c.assumptions += ["characters outside of ASCII are sampled from Chars!Known", "whether an undefined ignored production is refused by the reader is left open"]


def chain(rng):
    """The ignored production uses others, directly and not, also in cycles; some share names with terminals."""
    n = rng.randrange(1, 7)
    names = rng.sample(NAMES, n + 2)
    ign = rng.choice(names)
    defs = []
    for x in names:
        alts = []
        for _ in range(rng.choice([1, 2, 3])):
            k = rng.choice([0, 1, 2, 3])
            alts.append(" ".join(rng.choice(names) if rng.random() < rng.choice([.3, .6]) else '"%s"' % rng.choice(names + ["x", " "]) for _ in range(k)) or "#")
        o = ""
        if rng.random() < .2:
            o = "$[IGNORE:%s]" % rng.choice(names + ["#"])
        defs.append(x + " -> " + o + " | ".join(alts) + ";")
    rng.shuffle(defs)
    if rng.random() < .4:
        defs.append(rng.choice(defs))
    defs.insert(rng.randrange(0, 2), "$IGNORE: %s;" % ign)
    if rng.random() < .3:
        defs.insert(rng.randrange(len(defs)), "$IGNORE: %s;" % rng.choice(names))
    return " ".join(defs)


def nested(rng, n):
    """The ignored production uses one that uses another, and so on."""
    names = ["p%d" % k for k in range(n)]
    defs = ["%s -> $[IGNORE:#]%s;" % (a, rng.choice([b, '"x" ' + b, b + ' | "y"'])) for a, b in zip(names, names[1:])] + [names[-1] + ' -> $[IGNORE:#] " ";']
    rng.shuffle(defs)
    return "$IGNORE: p0; " + "\n".join(defs) + 'start -> "a" "b" | %s "c"; %s -> "d" "e";' % (rng.choice(names), rng.choice(names))
