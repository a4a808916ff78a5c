"""C12: views against spec/Cursor.tla; C13: lexical readers against spec/Lex.tla."""
import itertools

ALPHA = [170, 196, 223, 228, 233, 304, 837, 955, 1046, 1488, 8551, 23383, 28450, 119964]
NUM = [178, 189, 1635, 2406, 9312, 65296]
OTHER = [769, 8203, 8204, 8205, 8255, 8288, 8364, 8594, 6158, 65279, 65343, 65533, 57344, 55295, 128512, 1114111]
SPACE = [9, 10, 11, 12, 13, 32, 133, 160, 5760, 8192, 8195, 8202, 8232, 8233, 8239, 8287, 12288]
CLOSE, BS = ord("}"), ord("\\")


def exhaustive_views(rng, keep):
    """All texts of length <= 4 over {a, stop, escape}, all ways to step through them, looking before every step."""
    acts = [["next"], ["nif", [97, CLOSE, BS], True], ["nif", [97], True], ["nif", [CLOSE], False], ["neq", CLOSE], ["neq", BS]]
    for n in range(0, 5):
        for t in itertools.product([97, CLOSE, BS], repeat=n):
            for stop, esc in ((-1, -1), (CLOSE, -1), (CLOSE, BS), (97, BS), (-1, BS)):
                for seq in itertools.product(range(len(acts)), repeat=min(n + 1, 4)):
                    if rng.random() > keep:
                        continue
                    ops = []
                    for k in seq:
                        ops += [["peek"], ["peekm"], acts[k], ["peek"]]
                    yield {"kind": "views", "text": list(t), "stop": stop, "esc": esc, "pos": rng.choice([0, 0, 5]), "ops": ops}


def rand_views(rng, n, size):
    pool = rng.choice([[97, CLOSE, BS], [97, 98, CLOSE, BS, 123, 10], [97, CLOSE, BS, 8364, 128512, 65, 32], [97, CLOSE, CLOSE, BS, BS]])
    t = [rng.choice(pool) for _ in range(rng.randrange(0, size))]
    pairs = [(-1, -1), (CLOSE, -1), (CLOSE, BS), (CLOSE, BS), (97, BS), (BS, 97), (pool[-1], -1), (-1, BS), (CLOSE, 97)]
    pairs = [p for p in pairs if p[0] != p[1] or p[0] == -1]
    stop, esc = rng.choice(pairs)
    ops, depth, pos = [], 1, [rng.choice([0, 0, 1, 40, 65530, 1000000])]
    walk = rng.random()
    for _ in range(n):
        r = rng.random()
        if r < 0.3:
            ops.append(["next"])
        elif r < 0.5:
            ops.append([rng.choice(["peek", "peekm"])])
        elif r < 0.65:
            ops.append(["nif", rng.sample(pool, rng.randrange(0, len(pool))), rng.random() < 0.6])
        elif r < 0.8:
            ops.append(["neq", rng.choice(pool)])
        elif r < 0.9 and depth < 5 and walk < 0.7:
            s, e = rng.choice(pairs)
            ops.append(["open", s, e, rng.choice([0, 7, 100, 70000])])
            depth += 1
        elif depth > 1:
            ops.append(["close"])
            depth -= 1
        else:
            ops += [["peek"], ["next"]]
    return {"kind": "views", "text": t, "stop": stop, "esc": esc, "pos": pos[0], "ops": ops}


LIMITS = ["0", "00", "7", "10", "18446744073709551615", "18446744073709551616", "18446744073709551609", "28446744073709551615",
          "99999999999999999999", "000018446744073709551615", "0000000000000000000000000000000000001", "9223372036854775807",
          "9223372036854775808", "9223372036854775809", "09223372036854775807", "184467440737095516150", "4294967296", "2147483648", "1" * 40]


def lex_text(rng):
    out = []
    for _ in range(rng.randrange(0, 7)):
        r = rng.random()
        if r < 0.2:
            out += [ord(x) for x in rng.choice(["", "-", "-", "--", "+"]) + rng.choice(LIMITS)]
        elif r < 0.35:
            out += [ord(x) for x in str(rng.getrandbits(rng.choice([3, 8, 31, 32, 62, 63, 64, 65])))]
        elif r < 0.55:
            out += [rng.choice(SPACE) for _ in range(rng.randrange(1, 4))]
        elif r < 0.8:
            out.append(rng.choice([rng.choice(ALPHA), rng.randrange(97, 123), rng.randrange(65, 91), rng.choice(NUM), 95]))
            out += [rng.choice([95, 95, rng.randrange(48, 58), rng.randrange(97, 123), rng.choice(ALPHA), rng.choice(NUM)]) for _ in range(rng.randrange(0, 6))]
        elif r < 0.9:
            out.append(rng.choice(OTHER + NUM))
        else:
            out.append(rng.choice([ord(x) for x in "-+;:{}#\"|$.,_\\@`[~/"] + [0, 8, 14, 28, 31, 127, 48, 57, 58, 47, 64, 91, 96, 123]))
    return out


def rand_lex(rng):
    t = lex_text(rng)
    ops = []
    for _ in range(rng.randrange(1, 8)):
        r = rng.random()
        if r < 0.25:
            ops.append(["sym", rng.choice(t) if t and rng.random() < .7 else rng.choice([45, 59, 97, 8364])])
        else:
            ops.append([rng.choice(["ws", "digits", "usize", "isize", "isize", "name", "name", "ws"])])
        if t and rng.random() < 0.1:
            t.insert(rng.randrange(len(t) + 1), rng.choice([34, 34, BS]))
    stop, esc = rng.choice([(-1, -1), (-1, -1), (CLOSE, BS), (rng.choice(t) if t else CLOSE, -1), (rng.choice(t) if t else CLOSE, rng.choice(t) if t else BS)])
    if stop == esc:
        esc = -1
    return {"kind": "lex", "text": t, "stop": stop, "esc": esc, "pos": rng.choice([0, 0, 3, 1000, 65530]), "nested": rng.random() < 0.3, "ops": ops}


def single_lex(rng):
    """One reader directly on an interesting text."""
    for num in LIMITS:
        for pre in ("", "-", "--", "-0", "+", " "):
            for post in ("", "x", "_", " ", "٣", "\u00b2", "-", "."):
                for op in ("usize", "isize", "digits"):
                    yield {"kind": "lex", "text": [ord(x) for x in pre + num + post], "stop": -1, "esc": -1, "pos": 0, "nested": False, "ops": [[op], ["ws"], ["name"]]}
    chars = ALPHA + NUM + OTHER + SPACE + list(range(0, 128))
    for x in chars:
        for t in ([x], [97, x], [x, 97], [49, x], [45, x], [32, x, 32], [97, 95, x, 95, 97]):
            for op in ("ws", "digits", "usize", "isize", "name"):
                yield {"kind": "lex", "text": t, "stop": -1, "esc": -1, "pos": 0, "nested": False, "ops": [[op], ["sym", x]]}


def quoted_lex(rng, n):
    """Quoted text: all short texts over {quote, backslash, a} and random ones."""
    for m in range(0, 6):
        for t in itertools.product([34, BS, 97], repeat=m):
            yield {"kind": "lex", "text": [34] * (m < 5 or rng.random() < .9) + list(t), "stop": -1, "esc": -1, "pos": 0, "nested": False, "ops": [["quoted"], ["name"], ["quoted"]]}
    for _ in range(n):
        t = lex_text(rng)
        for _ in range(rng.randrange(1, 8)):
            t.insert(rng.randrange(len(t) + 1), rng.choice([34, BS, BS, 10]))
        stop, esc = rng.choice([(-1, -1), (-1, -1), (-1, BS), (CLOSE, BS), (rng.choice(t), -1)])
        ops = [[rng.choice(["quoted", "quoted", "ws", "name", "digits"])] for _ in range(rng.randrange(1, 6))]
        if rng.random() < .7:
            t, ops = [34] + t, [["quoted"]] + ops
        yield {"kind": "lex", "text": t, "stop": stop, "esc": esc, "pos": rng.choice([0, 0, 9, 65534]), "nested": False, "ops": ops}


def long_lex(rng, n):
    """A run of more than 65 536 characters of one kind."""
    for _ in range(n):
        run, op = rng.choice([(" ", "ws"), ("7", "digits"), ("0", "usize"), ("0", "isize"), ("a_", "name"), ("9", "usize"), ("\u3000", "ws"), ("a " * 900 + '\\"', "quoted")])
        t = [ord(x) for x in {"quoted": '"', "name": "b"}.get(op, "") + run * (66000 // len(run)) + rng.choice(["", "17", "x;", '"', '";', "}", "- "])]
        yield {"kind": "lex", "text": t, "stop": rng.choice([-1, CLOSE]), "esc": -1, "pos": rng.choice([0, 1]), "nested": op != "quoted" and rng.random() < .3, "ops": [[op], ["ws"], ["isize"], ["name"]]}


def run(c):
    c.build("h_cursor")
    if c.prop == "C12":
        c.design("MCCursor", note="all uses of up to 3 nested views on all texts up to 4 characters: bounded, right end, right position")
        c.judge("TraceCursor", c.drive("h_cursor", list(exhaustive_views(c.rng, c.pick(0.012, 0.15)))),
                what="sample of all texts up to 4 characters x stop/escape settings x step sequences")
        cases = [rand_views(c.rng, c.rng.choice([5, 15, 40]), c.rng.choice([4, 10, 30])) for _ in range(c.pick(2500, 25000))]
        cases += [rand_views(c.rng, 300, 200) for _ in range(c.pick(30, 300))]
        c.judge("TraceCursor", c.drive("h_cursor", cases), what="random nested views")
        c.assumptions += ["stop and escape character of a view differ"]
    else:
        c.design("MCLex", note="the readers on all texts up to 5 characters of 7 kinds")
        c.design("MCLex", "MCLex_quoted.cfg", note="quoted text on all texts up to 7 characters of 4 kinds, against reading one character at a time")
        single = list(single_lex(c.rng))
        if c.quick():
            c.rng.shuffle(single)
            single = single[:4000]
        c.judge("TraceLex", c.drive("h_cursor", single), what="one reader on each class of character and at the number limits")
        cases = [rand_lex(c.rng) for _ in range(c.pick(3000, 30000))]
        c.judge("TraceLex", c.drive("h_cursor", cases), what="random readings")
        c.judge("TraceLex", c.drive("h_cursor", list(quoted_lex(c.rng, c.pick(1500, 20000)))), what="quoted texts: all short ones over quote, backslash, letter; random ones")
        c.judge("TraceLex", c.drive("h_cursor", list(long_lex(c.rng, c.pick(4, 30)))), what="runs of more than 65 536 characters")
        c.assumptions += ["characters outside of ASCII are sampled from Chars!Known", "after a number that is too large the rest of the text is not looked at"]
