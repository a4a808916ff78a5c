"""C19: instruction sections against spec/InstrText.tla; C20: the stack machines against spec/StackVm.tla."""
import itertools

from gen import C

PLAIN = ["Add", "Sub", "Digit", "PopToReg", "PopToReg2", "PopDiscard", "PushFromTree", "PushReg", "PushReg2", "PrintReg", "PrintReg2", "PrintError"]
CONST = ["RegAddConst", "PushConst", "Pow"]
I, U = 2 ** 63, 2 ** 64
NUMS = [0, 1, 2, 7, 10, 42, 2 ** 31 - 1, 2 ** 31, 2 ** 32, 2 ** 53 + 1, I - 1, I, I + 1, U - 1, U, U + 1, 10 ** 18, 10 ** 19, 10 ** 20, 3 * U, 10 ** 30]
WS = " \n\t\r\u00a0\u2003\u3000\u0085"


def ws(rng, must=False, much=.4):
    if rng.random() < much or must:
        return "".join(rng.choice(WS if rng.random() < .3 else " ") for _ in range(rng.randrange(1, 4)))
    return ""


def number(rng):
    r = rng.random()
    n = str(rng.choice(NUMS) if r < .5 else rng.getrandbits(rng.choice([3, 10, 32, 62, 63, 64, 65])))
    if rng.random() < .15:
        n = "0" * rng.randrange(1, 25) + n
    return n


UNKNOWN = ["Nop", "add", "Addd", "Ad", "ADD", "PopToReg3", "PopToReg22", "PopTo", "Push", "PushReg1", "Print", "Pow10", "Pow_", "x", "é", "PushConst1", "PushConst_", "RegAdd", "RegAddConst0", "DigitX", "Mul", "PrintErr", "PrintReg2x", "Sub_", "_Add"[1:]]


def instruction(rng):
    r = rng.random()
    if r < .4:
        s = rng.choice(PLAIN)
    elif r < .8:
        s = rng.choice(CONST) + ws(rng, True) + number(rng)
    else:
        s = rng.choice(UNKNOWN)
    return s + ";"


def section(rng, n=6):
    return ws(rng) + "".join(instruction(rng) + ws(rng) for _ in range(rng.randrange(0, n)))


BITS = ["Add", "Add;", "Pow", "Pow 3", "PushConst", "PushConst 1;", ";", ";;", " ", "\n", "-", "-1", "1", "0", "RegAddConst 5;", "PopToReg2", "x", "_", "+3", "1.5", "#", "\"", "{", ",", "é", "٣", "9223372036854775808", "18446744073709551616", "Digit;", "Sub ;", "\\"]


def damaged(rng, t):
    for _ in range(rng.choice([1, 1, 1, 2])):
        k = rng.randrange(len(t) + 1)
        r = rng.random()
        t = t[:k] + t[k + 1:] if r < .4 else t[:k] + rng.choice(BITS) + t[k:] if r < .7 else t[:k] + rng.choice(BITS) + t[k + 1:] if r < .9 else t[:k]
    return t


NAMES = ["p", "start", "add", "sub", "number", "digit", "number_s_", "number_s", "print", "Add", "adds", "ad", "digits", "prints", "numbers_", "subb", "Print", "é"]


def reading(rng, t, vm="stack", name=None, how=None):
    how = how or rng.choice(["direct", "direct", "part", "rule"])
    if how != "direct" and ("}" in t or "\\" in t):
        how = "direct"
    return {"what": "text", "vm": vm, "t": C(t), "name": C(name or rng.choice(NAMES)), "how": how}


# ---- execution --------------------------------------------------------------------------------------------------
def big(n):
    return [1 if n < 0 else 0, [int(d) for d in reversed(str(abs(n)))] if n else []]


def lim(vm):
    return (-I, I - 1) if vm == "stack" else (0, U - 1)


def value(rng, vm):
    lo, hi = lim(vm)
    r = rng.random()
    if r < .35:
        n = rng.randrange(-3, 12)
    elif r < .6:
        n = rng.choice([lo, lo + 1, lo + 2, hi, hi - 1, hi - 9, hi // 2, hi // 2 + 1, hi // 10, hi // 10 + 1, lo // 2, lo // 2 - 1, 2 ** 31, 2 ** 32, 2 ** 32 - 1, -2 ** 31, 3037000499, 3037000500, 10 ** 18, 10 ** 19])
    elif r < .8:
        n = rng.randrange(0, 70)
    else:
        n = rng.getrandbits(rng.choice([8, 32, 62, 63, 64])) * rng.choice([1, 1, -1])
    return min(max(n, lo), hi)


TEXTS = ["0", "1", "7", "9", "42", "-1", "+5", "-0", "+0", "", "+", "-", " 1", "1 ", "a", "1a", "0x1", "1.0", "٣", "007", "1_0", str(I - 1), str(I), str(-I), str(-I - 1), str(U - 1), str(U), "0" * 30 + "5", "9" * 25, "--1", "+-1", "é", "\n1", "-" + str(U)]


def instr(rng, vm):
    if rng.random() < .65:
        return [rng.choice(PLAIN)]
    name = rng.choice(CONST)
    if name == "Pow":
        c = rng.choice([10, 10, 2, 0, 1, 3, 16, 256, 2 ** 31, 2 ** 32 - 1, 2 ** 32, I - 1, I, U - 1, rng.randrange(0, 50)])
    else:
        c = value(rng, vm)
    return [name, big(c)]


def tree(rng):
    n = rng.randrange(1, 8)
    nodes = [[0 if k == 0 or rng.random() < .1 else rng.randrange(1, k + 1), C(rng.choice(TEXTS))] for k in range(n)]
    gone = [rng.randrange(1, n + 1)] if n > 1 and rng.random() < .3 else []
    return nodes, gone


def execution(rng, n, vm=None, fresh=None):
    vm = vm or rng.choice(["stack", "simple"])
    nodes, gone = tree(rng)
    fresh = rng.random() < .3 if fresh is None else fresh
    c = {"what": "run", "vm": vm, "nodes": nodes, "gone": gone, "fresh": fresh}
    if not fresh:
        c["state"] = {"stack": [big(value(rng, vm)) for _ in range(rng.choice([0, 1, 2, 3, 5]) if rng.random() < .97 else 60)], "reg": big(value(rng, vm)), "reg2": big(value(rng, vm)), "err": rng.choice([0, 0, 1, 2, 3])}
    c["ops"] = [{"i": instr(rng, vm), "n": rng.randrange(1, len(nodes) + 1)} for _ in range(n)]
    return c


def powers(rng, n):
    """Pow around the limits: base^exponent, products and sums just inside and just outside."""
    for _ in range(n):
        vm = rng.choice(["stack", "simple"])
        lo, hi = lim(vm)
        base = rng.choice([2, 3, 7, 10, 10, 16, 255, 2 ** 16, 2 ** 31, 2 ** 32, 0, 1])
        e = rng.randrange(0, 66)
        if base > 1:
            import math
            top = int(math.log(hi, base))
            e = max(0, top + rng.randrange(-3, 3))
        f = base ** e
        v = rng.choice([hi // max(f, 1), hi // max(f, 1) + 1, lo // max(f, 1), lo // max(f, 1) - 1, 0, 1, -1, 5])
        v = min(max(v, lo), hi)
        p = v * f
        r2 = rng.choice([hi - p, hi - p + 1, lo - p, lo - p - 1, 0, 1, -1, hi, lo])
        r2 = min(max(r2, lo), hi)
        e = min(max(rng.choice([e, e, e, e, -e, 2 ** 32, 2 ** 32 + e, hi]), lo), hi) if rng.random() < .2 else e
        yield {"what": "run", "vm": vm, "nodes": [[0, []]], "gone": [], "fresh": False,
               "state": {"stack": [big(3), big(v)], "reg": big(e), "reg2": big(r2), "err": rng.choice([0, 1])},
               "ops": [{"i": ["Pow", big(base)], "n": 1}, {"i": ["PrintError"], "n": 1}]}


def single(rng, vm):
    """Every instruction on a grid of small and extreme states."""
    lo, hi = lim(vm)
    vals = sorted({lo, lo + 1, hi - 1, hi, 0, 1, max(lo, -1), 10})
    for name in PLAIN + CONST:
        for v, r in itertools.product(vals, vals):
            for k in ([[]] if name in PLAIN else [[big(x)] for x in (0, 1, 2, 10, hi)]):
                depth = rng.randrange(0, 4) if rng.random() < .15 else 1
                yield {"what": "run", "vm": vm, "nodes": [[0, []], [1, C(str(v))], [1, C("1")]], "gone": rng.choice([[], [], [2], [2, 3]]), "fresh": False,
                       "state": {"stack": [big(rng.choice(vals)) for _ in range(depth - 1)] + ([big(v)] if depth else []), "reg": big(r), "reg2": big(rng.choice(vals)), "err": rng.choice([0, 1, 2, 3])},
                       "ops": [{"i": [name] + k, "n": rng.choice([1, 1, 1, 2])}]}


def run(c):
    c.build("h_vm")
    rng = c.rng
    n = c.pick(1, 12)
    if c.prop == "C19":
        c.design("MCInstrText", note="all sequences of up to 5 pieces of 8 kinds: reading ends, is part by part, and what it reads written out reads the same")

        def judge(cases, what):
            c.judge("TraceInstrText", c.drive("h_vm", list(cases)), what=what)
        pieces = ["Add", "Pow", "PushConst", "x", ";", " ", "07", str(U - 1), "-", "RegAddConst", str(I)]
        short = ["".join(p) for k in range(0, 5) for p in itertools.product(pieces, repeat=k)]
        rng.shuffle(short)
        judge((reading(rng, t) for t in short[: c.pick(3000, 16000)]), "sequences of pieces")
        judge((reading(rng, section(rng)) for _ in range(2000 * n)), "random sections")
        judge((reading(rng, damaged(rng, section(rng, 4))) for _ in range(2500 * n)), "damaged sections")
        judge((reading(rng, section(rng, 150)) for _ in range(20 * n)), "long sections")
        judge((reading(rng, f"{name}{w}{k};") for name in CONST for k in NUMS + [x + d for x in (I, U) for d in (-2, 2)] for w in (" ", "\t ")), "limits")
        judge((reading(rng, rng.choice([section(rng), damaged(rng, section(rng)), ""]), "simple") for _ in range(1000 * n)), "the simple stack VM")
    else:
        c.design("MCBigInt", note="arithmetic of the specification on all pairs of integers up to 210")
        c.design("MCStackVm", note="tiny integers: all instructions in all states with up to 2 values")
        if not c.quick():
            c.design("MCStackVm", "MCStackVm_deep.cfg", note="tiny integers, up to 3 values")

        def judge(cases, what):
            c.judge("TraceStackVm", c.drive("h_vm", list(cases)), what=what)
        for vm in ("stack", "simple"):
            grid = list(single(rng, vm))
            rng.shuffle(grid)
            judge(grid[: c.pick(1600, 100000)], f"single instructions on extreme states ({vm})")
        judge(powers(rng, 900 * n), "Pow at its limits")
        judge((execution(rng, rng.choice([3, 6, 12, 20])) for _ in range(700 * n)), "random programs")
        judge((execution(rng, 400, fresh=True) for _ in range(4 * n)), "long programs")
    c.assumptions += ["machine integers have 64 bits"]
