"""C21: the example calculators against spec/Calc.tla."""
import itertools

from gen import C

I, U = 2 ** 63, 2 ** 64


def literal(rng):
    r = rng.random()
    if r < .5:
        n = str(rng.randrange(0, 100))
    elif r < .7:
        n = str(rng.getrandbits(rng.choice([8, 20, 31, 32, 53, 60, 62, 63])))
    elif r < .85:
        n = str(rng.choice([I - 1, I - 1, I, I - 2, U - 1, U, U - 2, 10 ** 18, 10 ** 19, 10 ** 18 - 1, I // 2, I // 2 + 1, U // 2, 0, 10, 100]))
    else:
        n = "".join(rng.choice("0123456789") for _ in range(rng.randrange(1, 19)))
    if rng.random() < .12:
        n = "0" * rng.choice([1, 1, 2, 5, 18, 19, 20, 30]) + n
    return n


def script(rng, n, calc):
    """Mostly with operands enough."""
    out, depth = [], 0
    for _ in range(n):
        r = rng.random()
        if depth < 2 and r < .93 or r < .4:
            out.append(literal(rng))
            depth += 1
        elif r < .65:
            out.append("+")
            depth -= 1
        elif r < .8:
            out.append("-")
            depth -= 1
        else:
            out.append("print")
            depth -= 1
        depth = max(depth, 0)
    return " ".join(out)


def tame(rng, n):
    """Small numbers; subtracting never goes below zero, so that both kinds of machine stay in range."""
    out, st = [], []
    for _ in range(n):
        r = rng.random()
        if len(st) < 2 or r < .4:
            v = rng.choice([0, 1, 2, 5, 9, 10, 12, 99, 100, 4095, 10 ** 9, rng.randrange(0, 10 ** 12)])
            out.append("0" * rng.choice([0, 0, 0, 0, 1, 3, 25]) + str(v))
            st.append(v)
        elif r < .6:
            out.append("+")
            b = st.pop()
            st.append(st.pop() + b)
        elif r < .8 and st[-2] >= st[-1]:
            out.append("-")
            b = st.pop()
            st.append(st.pop() - b)
        else:
            out.append("print")
            st.pop()
    return " ".join(out)


BITS = [" ", "  ", "\n", "+", "-", "*", "print", "Print", "prin", "printt", "1", "0", "12", "-1", "+1", ".", "٣", "\t", "p", "t", "9" * 20, "$", "\u00a0"]


def damaged(rng, t):
    for _ in range(rng.choice([1, 1, 1, 2])):
        k = rng.randrange(len(t) + 1)
        r = rng.random()
        t = t[:k] + t[k + 1:] if r < .35 else t[:k] + rng.choice(BITS) + t[k:] if r < .7 else t[:k] + rng.choice(BITS) + t[k + 1:] if r < .9 else t[:k]
    return t


def run(c):
    c.build("h_calc")
    rng = c.rng
    c.design("MCBigInt", note="arithmetic of the specification on all pairs of integers up to 210")
    c.design("MCCalc", note="all scripts of up to 5 pieces of 7 kinds: the instructions of the productions, run by StackVm in tiny integers, compute the postfix value")
    c.design("MCCalc", "MCCalc_long.cfg", note="up to 7 pieces of 5 kinds")
    if not c.quick():
        c.design("MCCalc", "MCCalc_full.cfg", note="up to 7 pieces of 6 kinds", seconds=1500)
    n = c.pick(1, 12)

    def judge(scripts, what, per=8):
        scripts = list(scripts)
        cases = []
        for k in range(0, len(scripts), per):
            for calc in ("text", "simple", "rust"):
                cases.append({"calc": calc, "_fresh": rng.random() < .3, "_scripts": [C(t) for t in scripts[k:k + per]]})
        c.judge("TraceCalc", c.drive("h_calc", cases), what=what)
    pieces = ["0", "3", "17", "+", "-", "print", " "]
    short = ["".join(p) for k in range(0, 6) for p in itertools.product(pieces, repeat=k)]
    rng.shuffle(short)
    judge(short[: c.pick(1600, 20000)], "sequences of pieces", 20)
    terms = ["0", "1", "2", "10", str(I - 1), str(U - 1), "+", "-", "print"]
    progs = [" ".join(p) for k in range(1, 5) for p in itertools.product(terms, repeat=k)]
    rng.shuffle(progs)
    judge(progs[: c.pick(1200, 8000)], "short scripts", 20)
    judge((tame(rng, rng.choice([3, 5, 9, 15, 30])) for _ in range(400 * n)), "random scripts in range")
    judge((script(rng, rng.choice([2, 3, 5, 9, 15]), None) for _ in range(300 * n)), "random scripts with large numbers")
    judge((damaged(rng, rng.choice([tame, lambda r, k: script(r, k, None)])(rng, rng.choice([1, 3, 5, 9]))) for _ in range(400 * n)), "damaged scripts")
    judge((tame(rng, 150) for _ in range(6 * n)), "long scripts", 1)
    c.assumptions += ["machine integers have 64 bits", "scripts short enough for the parser's recursion (here up to about 2000 characters)"]
