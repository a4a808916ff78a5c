"""Grammars, sentences and layouts for the checks. Nothing here decides anything: the small analysis below only steers the
generators (which grammars are worth parsing with, where to cut a script)."""

C = lambda s: [ord(x) for x in s]
T = lambda s: ["t", C(s)]
N = lambda k: ["n", k]


class Gram:
    """alts[k]: the alternatives of production k+1, an alternative being a list of symbols ["t", codes] / ["n", k]."""
    def __init__(self, alts, start=1, names=None, defs=None):
        self.alts, self.start = alts, start
        self.defs = defs or [True] * len(alts)
        self.names = names
        self.sets = None

    def g(self):
        return {"alts": self.alts, "def": self.defs, "start": self.start}

    def prods(self):
        return range(1, len(self.alts) + 1)

    def analyse(self):
        if self.sets:
            return self.sets
        null, first, follow = set(), {k: set() for k in self.prods()}, {k: set() for k in self.prods()}
        follow[self.start].add(-2)
        ns = lambda s: not s[1] if s[0] == "t" else s[1] in null
        fs = lambda s: set(s[1][:1]) if s[0] == "t" else first[s[1]]

        def seq(q):
            out = set()
            for s in q:
                out |= fs(s)
                if not ns(s):
                    return out, False
            return out, True
        again = True
        while again:
            again = False
            for k in self.prods():
                for a in self.alts[k - 1]:
                    f, e = seq(a)
                    if e and k not in null:
                        null.add(k)
                        again = True
                    if not f <= first[k]:
                        first[k] |= f
                        again = True
        again = True
        while again:
            again = False
            for k in self.prods():
                for a in self.alts[k - 1]:
                    for i, s in enumerate(a):
                        if s[0] == "n":
                            f, e = seq(a[i + 1:])
                            f = f | (follow[k] if e else set())
                            if not f <= follow[s[1]]:
                                follow[s[1]] |= f
                                again = True
        self.seq = seq
        self.sets = (null, first, follow)
        return self.sets

    def applies(self, k, a):
        null, first, follow = self.analyse()
        f, e = self.seq(a)
        return f | (follow[k] if e else set())

    def conflict(self):
        for k in self.prods():
            seen = set()
            for a in self.alts[k - 1]:
                s = self.applies(k, a)
                if s & seen:
                    return True
                seen |= s
        return False

    def left_recursive(self):
        null, _, _ = self.analyse()
        corner = {}
        for k in self.prods():
            c = set()
            for a in self.alts[k - 1]:
                for s in a:
                    if s[0] == "n":
                        c.add(s[1])
                    if not (not s[1] if s[0] == "t" else s[1] in null):
                        break
            corner[k] = c
        for k in self.prods():
            r, todo = set(), list(corner[k])
            while todo:
                x = todo.pop()
                if x not in r:
                    r.add(x)
                    todo += corner[x]
            if k in r:
                return True
        return False

    def defined(self):
        return self.defs[self.start - 1] and all(self.defs[s[1] - 1] for k in self.prods() for a in self.alts[k - 1] for s in a if s[0] == "n")

    def usable(self):
        return self.defined() and not self.left_recursive() and not self.conflict()

    def heights(self):
        """the least derivation height of each production (None if it derives no text)"""
        h = {}
        again = True
        while again:
            again = False
            for k in self.prods():
                for a in self.alts[k - 1]:
                    if all(s[0] == "t" or s[1] in h for s in a):
                        v = 1 + max([0] + [h[s[1]] for s in a if s[0] == "n"])
                        if k not in h or v < h[k]:
                            h[k] = v
                            again = True
        return h

    def productive(self):
        return len(self.heights()) == len(self.alts)

    def sentence(self, rng, fuel, limit=4000):
        """A random sentence; with fuel used up the shortest way out is taken. None if there is none."""
        h = self.heights()
        if self.start not in h:
            return None
        out, stack = [], [["n", self.start]]
        while stack:
            s = stack.pop()
            if s[0] == "t":
                out += s[1]
                if len(out) > limit:
                    return None
                continue
            k = s[1]
            ok = [a for a in self.alts[k - 1] if all(x[0] == "t" or x[1] in h for x in a)]
            cost = lambda a: max([0] + [h[x[1]] for x in a if x[0] == "n"])
            if fuel <= 0:
                low = min(map(cost, ok))
                ok = [a for a in ok if cost(a) == low]
            fuel -= 1
            stack += reversed(rng.choice(ok))
        return out

    def trim(self):
        """Without the productions that cannot be reached or derive no text. None if nothing is left."""
        h = self.heights()
        if self.start not in h:
            return None
        alts = {k: [a for a in self.alts[k - 1] if all(s[0] == "t" or s[1] in h for s in a)] for k in h}
        reach, todo = set(), [self.start]
        while todo:
            k = todo.pop()
            if k not in reach:
                reach.add(k)
                todo += [s[1] for a in alts[k] for s in a if s[0] == "n"]
        num = {k: i + 1 for i, k in enumerate(sorted(reach))}
        new = [[[s if s[0] == "t" else ["n", num[s[1]]] for s in a] for a in alts[k]] for k in sorted(reach)]
        return Gram(new, num[self.start])


# ---- terminals ------------------------------------------------------------------------------------------------
POOLS = ["ab", "abc", "abcdef", "a#b|", "xyz \n\t", "#;|>-$", "0123456789", "aäßЖ字", "+-*/()", "'\"\\", "\u0000\u007f\u0080\u07ff\u0800\uffff\U00010000\U0010ffff", "{}[]:"]


def terminal(rng, pool):
    r = rng.random()
    n = 1 if r < 0.6 else 2 if r < 0.8 else 0 if r < 0.87 else rng.randrange(3, 13)
    return ["t", [ord(rng.choice(pool)) for _ in range(n)]]


def small(rng, text=False):
    """Small grammars without any care: most of them conflict, many are left recursive."""
    pool = rng.choice([p for p in POOLS if not text or not set(p) & set('"\\\0')])
    n = rng.randrange(1, 6)
    und = rng.random() < 0.15
    defs = [not (und and rng.random() < 0.3) for _ in range(n)]

    def sym():
        return ["n", rng.randrange(1, n + 1)] if rng.random() < 0.5 else terminal(rng, pool)
    alts = [[[sym() for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 4]))] for _ in range(rng.choice([1, 1, 2, 2, 3]))] if defs[k] else [] for k in range(n)]
    return Gram(alts, rng.randrange(1, n + 1), defs=defs)


def careful(rng, n=None, text=False, chars=None, empties=0.35):
    """Grammars made to be LL(1) rather often: production k mostly uses later ones, alternatives start differently.
    Long runs of productions that can be empty are common."""
    n = n or rng.randrange(1, 9)
    pool = chars or "".join(rng.choice([p for p in POOLS if not text or not set(p) & set('"\\\0')]) for _ in range(2)) + "".join(chr(97 + i) for i in range(rng.randrange(4, 26)))
    pool = list(dict.fromkeys(pool))
    alts = []
    for k in range(1, n + 1):
        rng.shuffle(pool)
        own = pool[:]
        out = []
        for j in range(rng.choice([1, 1, 2, 2, 3, 4])):
            a = []
            r = rng.random()
            if j > 0 and r < empties and [] not in out:
                out.append(a)
                continue
            if r < 0.75 or k == n:
                a.append(["t", [ord(own.pop() if own else "a")] + [ord(rng.choice(pool)) for _ in range(rng.choice([0, 0, 0, 1, 2, 8]))]])
            elif k < n:
                a.append(["n", rng.randrange(k + 1, n + 1)])
            for _ in range(rng.choice([0, 1, 1, 2, 3, 5])):
                r = rng.random()
                if r < 0.04:
                    a.append(["t", []])
                elif r < 0.4:
                    a.append(terminal(rng, pool))
                elif r < 0.8 and k < n:
                    a.append(["n", rng.randrange(k + 1, n + 1)])
                elif a:
                    a.append(["n", rng.randrange(1, n + 1)])
            out.append(a)
        rng.shuffle(out)
        alts.append(out)
    g = Gram(alts, 1 if rng.random() < 0.8 else rng.randrange(1, n + 1))
    return shuffled(rng, g)


def shuffled(rng, g):
    """The same grammar with its productions numbered differently."""
    n = len(g.alts)
    p = list(range(1, n + 1))
    rng.shuffle(p)
    to = {k: p[k - 1] for k in range(1, n + 1)}
    alts, defs = [None] * n, [None] * n
    for k in range(1, n + 1):
        alts[to[k] - 1] = [[s if s[0] == "t" else ["n", to[s[1]]] for s in a] for a in g.alts[k - 1]]
        defs[to[k] - 1] = g.defs[k - 1]
    return Gram(alts, to[g.start], defs=defs)


def mutated(rng, g, pool="ab#|x"):
    """One symbol, alternative or definition changed."""
    import copy
    alts, defs, start = copy.deepcopy(g.alts), g.defs[:], g.start
    n = len(alts)
    for _ in range(rng.choice([1, 1, 1, 2])):
        k = rng.randrange(n)
        if not alts[k]:
            continue
        a = rng.choice(alts[k])
        r = rng.random()
        sym = lambda: ["n", rng.randrange(1, n + 1)] if rng.random() < .6 else terminal(rng, pool)
        if r < 0.25:
            a.insert(rng.randrange(len(a) + 1), sym())
        elif r < 0.45 and a:
            a[rng.randrange(len(a))] = sym()
        elif r < 0.6 and a:
            del a[rng.randrange(len(a))]
        elif r < 0.75:
            alts[k].append([])
        elif r < 0.85:
            alts[k].append([sym() for _ in range(rng.randrange(1, 3))])
        elif r < 0.9:
            alts[k].append(copy.deepcopy(rng.choice(alts[k])))
        elif r < 0.95:
            start = rng.randrange(1, n + 1)
        else:
            defs[k], alts[k] = False, []
    return Gram(alts, start, defs=defs)


def families(rng):
    """Grammars of known shapes, with random size."""
    m = rng.randrange(2, 11)
    L = [chr(97 + i) for i in range(26)]
    f = rng.randrange(14)
    if f == 0:    # m productions that can be empty, one after the other, perhaps something behind them
        alts = [[[N(k) for k in range(2, m + 2)] + ([T("!")] if rng.random() < .5 else [])]]
        alts += [[[T(L[k])], []] for k in range(m)]
    elif f == 1:  # a chain of productions each of which is the next one or nothing
        alts = [[[N(k + 1), T(L[k])] if rng.random() < .7 else [N(k + 1)]] + ([[]] if rng.random() < .3 else []) for k in range(1, m)] + [[[T("z")], []]]
    elif f == 2:  # left recursion over m productions, each step perhaps hidden behind empty ones
        e = m + 1
        alts = [[([N(e)] if rng.random() < .5 else []) + [N(k % m + 1), T("x")], [T(L[k])]] for k in range(1, m + 1)] + [[[], [T("?")]]]
        if rng.random() < .5:
            alts[rng.randrange(m)][0].insert(0, T(rng.choice(["(", ""])))
    elif f == 3:  # expressions
        alts = [[[N(3), N(2)]], [[T("+"), N(3), N(2)], []], [[N(5), N(4)]], [[T("*"), N(5), N(4)], []], [[T("("), N(1), T(")")], [T("i")]] + ([[T("-"), N(5)]] if rng.random() < .5 else [])]
    elif f == 4:  # dangling else
        alts = [[[T("i"), N(1), N(2)], [T("x")]], [[T("e"), N(1)], []]]
        if rng.random() < .5:
            alts[0][0].append(T("f"))
    elif f == 5:  # something empty whose FOLLOW is far away: right ends nested m deep
        alts = [[[N(2), T("$")]]] + [[[T(L[k]), N(k + 1)]] for k in range(2, m + 1)] + [[[T("z"), N(m + 1)], []]]
        if rng.random() < .4:
            alts.append([[N(rng.randrange(2, m + 2)), T(rng.choice(["z", "y", "#"]))]])
    elif f == 6:  # both alternatives can be empty, or conflict with what follows, m levels down
        alts = [[[N(2), T(rng.choice(["a", "b", "#"]))]]] + [[[N(k + 1)]] + ([[T(L[k])]] if rng.random() < .5 else []) for k in range(2, m + 1)] + [[[T(rng.choice(["a", "b", "#"]))], []]]
    elif f == 7:  # '#' as a character against the end of the input
        alts = [[[T("#"), N(1)], []], [[T("#")], [N(1)]]]
        rng.shuffle(alts)
    elif f == 8:  # productions that are never used, that derive nothing, alternatives that cannot apply
        alts = [[[T("a"), N(2)], []], [[T("b")], []], [[], []], [[T("u"), N(4)]], [[N(3), N(4)]]]
    elif f == 9:  # empty terminals
        alts = [[[T(""), N(2)], [T("a")]], [[T("b")], [T("")]]] if rng.random() < .5 else [[[T(""), T(""), T("c")], [T(""), N(2)]], [[T(""), T("d"), N(2)], []]]
    elif f == 10:  # words with a common prefix
        alts = [[[T("x"), N(2)]], [[T("foo")], [T("bar")], [T(rng.choice(["fog", "baz", "quux"]))]]]
    elif f == 11:  # a long list
        alts = [[[N(2), N(1)], []], [[T(L[k]), T(";")] for k in range(m)]]
    elif f == 12:  # mutual right recursion with FOLLOW cycles
        alts = [[[T(L[k]), N(rng.randrange(1, m + 1))], [T(L[k].upper())] if rng.random() < .5 else []] for k in range(m)]
        alts[rng.randrange(m)][0].append(T(rng.choice(["!", "a"])))
    else:         # one production used at many places with different things behind it
        alts = [[[T(L[k]), N(2), T(L[k + 1].upper())] for k in range(m)] + [[T("z"), N(2)]], [[T("e"), N(2)], []]]
    g = Gram(alts, 1)
    if rng.random() < 0.3:
        g = mutated(rng, g)
    if rng.random() < 0.25:
        g = Gram(g.alts, rng.randrange(1, len(g.alts) + 1), defs=g.defs)
    return shuffled(rng, g) if rng.random() < 0.7 else g


WORDS = ["start", "Start", "a", "b", "x1", "A_b", "starter", "expr", "z9", "s_t", "äß", "Ж", "rule", "empty", "IGNORE", "q", "terminal", "n2", "i", "字", "x_", "number_s_", "a__"]


def names(rng, g, text, startname=None):
    """A name for each production; with text they are names the rule reader accepts."""
    pool = WORDS + ([] if text else ["", " ", "1", "a b", "#", "->", "\"", "\0"])
    out = rng.sample(pool, min(len(pool), len(g.alts)))
    while len(out) < len(g.alts):
        out.append("p%d" % len(out))
    if startname is not None:
        if startname in out:
            out[out.index(startname)] = "other"
        out[g.start - 1] = startname
    return [C(x) for x in out]


def order(rng, g):
    """An order in which to define the alternatives: those of one production stay in order."""
    todo = [k for k in g.prods() for _ in g.alts[k - 1]]
    if rng.random() < 0.5:
        ks = list(g.prods())
        rng.shuffle(ks)
        todo = [k for k in ks for _ in g.alts[k - 1]]
    else:
        rng.shuffle(todo)
    count, out = {}, []
    for k in todo:
        count[k] = count.get(k, 0) + 1
        out.append([k, count[k]])
    return out


def ws(rng, must=False):
    r = rng.random()
    if r < 0.5:
        return " " if must or r < 0.3 else ""
    return "".join(rng.choice(" \n\t\r\u00a0\u2003") for _ in range(rng.randrange(1 if must else 0, 4)))


def rule_text(rng, g, names, order, sections=None, merge=True):
    """The grammar as rule text. order as above; neighbouring alternatives of one production may share a definition."""
    out, i, done = ws(rng), 0, set()
    nm = lambda k: "".join(map(chr, names[k - 1]))
    while i < len(order):
        k = order[i][0]
        j = i + 1
        while j < len(order) and order[j][0] == k and (not merge or rng.random() < 0.8):
            j += 1
        alts = []
        for x in order[i:j]:
            a = g.alts[k - 1][x[1] - 1]
            if not a:
                alts.append(ws(rng) + "#" + ws(rng))
                continue
            s = ws(rng)
            for y, sym in enumerate(a):
                w = '"' + "".join(map(chr, sym[1])) + '"' if sym[0] == "t" else nm(sym[1])
                glue = y > 0 and sym[0] == "n" and a[y - 1][0] == "n"
                s += (ws(rng, glue) if y else "") + w
            alts.append(s + ws(rng))
        sec = ""
        if sections is not None and k not in done:
            sec = sections.get(k, "")
        done.add(k)
        out += nm(k) + ws(rng) + "->" + "|".join(alts) + sec + ws(rng) + ";" + ws(rng)
        i = j
    return out
