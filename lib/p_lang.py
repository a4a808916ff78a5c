"""C27: spec/Language.tla against languages made of rule texts with stack machine instructions."""
import gen
import p_parser
import p_rules
import p_tool
import p_vm
from gen import C, N, T

DIGITS = "0123456789"
SIMPLE = ["add", "sub", "number", "digit", "number_s_", "print"]
PRODS = ["x", "list", "add", "print", "digit", "Reg", "n1", "äß", "sum_", "Add", "number", "value"]


def digits(rng, g):
    """The characters of the grammar's terminals, or some of them, become digits and signs."""
    al = p_parser.alphabet(g)
    free = [ord(x) for x in DIGITS + "-+" if ord(x) not in al]
    rng.shuffle(free)
    rng.shuffle(al)
    to = {}
    for x in al:
        if free and chr(x) not in DIGITS and rng.random() < .8:
            to[x] = free.pop()
    m = lambda s: s if s[0] == "n" else ["t", [to.get(x, x) for x in s[1]]]
    return gen.Gram([[[m(s) for s in a] for a in x] for x in g.alts], g.start)


def const(rng):
    r = rng.random()
    if r < .7:
        return str(rng.choice([0, 1, 2, 3, 5, 10, 10, 100, 7, 42]))
    if r < .85:
        return str(rng.choice(p_vm.NUMS))
    return p_vm.number(rng)


def program(rng):
    """Instructions that mostly find operands."""
    out, depth = [], rng.choice([0, 0, 1])
    for _ in range(rng.choice([1, 1, 2, 3, 4, 6, 9, 14])):
        r = rng.random()
        if r < .2:
            x, d = "PushFromTree", 1
        elif r < .45:
            x, d = rng.choice(["PushReg", "PushReg2", "PushConst " + const(rng)]), 1
        elif depth > 0 and r < .75 or r < .5:
            x = rng.choice(["Add", "Sub", "PopToReg", "PopToReg", "PopToReg2", "PopDiscard", "Pow " + const(rng)])
            d = -1 if x.startswith("Pop") else 0
        else:
            x, d = rng.choice(["RegAddConst " + const(rng), "PrintReg", "PrintReg", "PrintReg2", "PrintError", "Digit", "Nop"]), 0
        depth += d
        out.append(x)
    return out


def section(rng):
    s = p_vm.ws(rng, much=.2)
    for x in program(rng):
        s += x + ";" + p_vm.ws(rng, much=.3)
    return "{" + s + "}"


def language(rng, vm, spoil=0.0):
    """A rule text and its grammar."""
    while True:
        g = digits(rng, p_tool.grammar(rng))
        if rng.random() < .35:
            body, g2 = p_tool.woven(rng, g)
            if not g2.usable():
                continue
        else:
            body, g2 = None, g
        k = len((body or g).alts)
        pool = (SIMPLE + PRODS[:3] if vm == "simple" else PRODS + SIMPLE[:2])
        nm = rng.sample(list(dict.fromkeys(pool)), min(k, len(set(pool))))
        nm += ["p%d" % x for x in range(k - len(nm))]
        nm[g.start - 1] = "start"
        names = [C(x) for x in nm]
        much = rng.choice([.3, .6, 1])
        secs = {x: section(rng) if vm == "stack" or rng.random() < .3 else rng.choice(["{}", "{ }", "{Add;}", "{x y}"]) for x in g.prods() if rng.random() < much}
        if body:
            t = "$IGNORE: %s;" % nm[-1] + gen.rule_text(rng, g, names[:-1], gen.order(rng, g), secs) + '%s -> $[IGNORE:#] " " %s | # %s;' % (nm[-1], nm[-1], section(rng) if rng.random() < .5 else "")
        else:
            t = gen.rule_text(rng, g, names, gen.order(rng, g), secs)
        if all(p_tool.chars_known(x) for x in t):
            return t, g2


def case(rng, t, vm, scripts):
    one = rng.random() < .4     # the state lives on
    return {"vm": vm, "t": C(t), "_scripts": [[s, k == 0 or not one or rng.random() < .2] for k, s in enumerate(scripts)]}


def calculators(rng, n):
    """The shipped languages with other instructions and scripts that go wrong."""
    base = ['start->term rest;rest->" " term rest|#;term->add|sub|number|print;', 'print->"print"', 'add->"+"', 'sub->"-"', 'number->digit number_s',
            'number_s->number_s_|#', 'number_s_->digit number_s', 'digit->' + "|".join('"%d"' % d for d in range(10))]
    usual = ["", "PopToReg;PrintReg;", "PopToReg; Add;", "PopToReg;Sub;", "PopDiscard;", "", "PopToReg;PopToReg2;PopDiscard;Pow 10;RegAddConst 1;PushReg;", "PushFromTree;PushConst 1;"]
    for _ in range(n):
        vm = rng.choice(["stack", "stack", "simple"])
        t = base[0]
        for b, u in zip(base[1:], usual[1:]):
            r = rng.random()
            t += b + ("{" + u + "}" if r < .8 else section(rng) if r < .95 else "") + ";"
        al = [ord(x) for x in "0123456789+- print"]
        sc = []
        for _ in range(4):
            s = C(" ".join(rng.choice(["+", "-", "print", str(rng.getrandbits(rng.choice([3, 8, 30, 63, 64]))), str(rng.randrange(100))]) for _ in range(rng.randrange(1, 7))))
            sc.append(s if rng.random() < .6 else p_parser.damaged(rng, s, al))
        yield case(rng, t, vm, sc)


def run(c):
    c.build("h_lang")
    rng = c.rng
    c.design("MCLanguage", c.pick("MCLanguage.cfg", "MCLanguage_deep.cfg"), note="8 languages x all short scripts: state and output are what is written beside them, also after rejected scripts", seconds=1500)

    def judge(cases, what):
        seen = c.drive("h_lang", list(cases))
        c.detail["parses"] = c.detail.get("parses", 0) + sum(len(o.get("parses", ())) for o in seen)
        c.detail["no_parser"] = c.detail.get("no_parser", 0) + sum(1 for o in seen if o.get("parser") is False)
        c.judge("TraceLanguage", seen, what=what)

    def made(n):
        for _ in range(n):
            vm = rng.choice(["stack", "stack", "stack", "simple"])
            t, g = language(rng, vm)
            yield case(rng, t, vm, p_parser.scripts(rng, g, 6, 20))

    def spoiled(n):
        """Texts that are damaged: no parser, or another language."""
        k = 0
        while k < n:
            vm = rng.choice(["stack", "stack", "stack", "simple"])
            t, g = language(rng, vm)
            d = p_rules.damaged(rng, t) if rng.random() < .4 else p_vm.damaged(rng, t)
            if all(p_tool.chars_known(x) for x in d) and "$IGNORE" not in t:
                k += 1
                yield case(rng, d, vm, p_parser.scripts(rng, g, 2, 10))

    def long(n):
        """One instruction list run many times."""
        for _ in range(n):
            p = section(rng)
            t = 'start->item start|#;item->"1"|"2"|"9"' + p + ";"
            s = C("".join(rng.choice("129") for _ in range(rng.choice([40, 120]))))
            yield case(rng, t, "stack", [s, s[:5] + C("x"), s[:20]])
    judge(made(c.pick(350, 5000)), "random languages with random scripts")
    judge(calculators(rng, c.pick(150, 2500)), "calculators with other instructions")
    judge(spoiled(c.pick(120, 2500)), "damaged rule texts")
    judge(long(c.pick(20, 200)), "long scripts")
    c.assumptions += ["machine integers have 64 bits"]
