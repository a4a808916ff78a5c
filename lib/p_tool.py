"""C23: spec/Tool.tla against the command-line tool."""
import os
import random
import resource
import shutil
import signal
import subprocess
from concurrent.futures import ThreadPoolExecutor

import core
import gen
import p_parser
import p_rules
from gen import C, N, T

BAD = [b"\x80", b"\xff", b"\xc0\xaf", b"\xc1\x81", b"\xe0\x80\xaf", b"\xed\xa0\x80", b"\xf0\x80\x80\x80", b"\xf4\x90\x80\x80", b"\xe2\x82", b"\xc3", b"\xf5", b"\xc3\xa9"[:1] + b"a", b"\xf0\x9f\x98"]


def enc(cs):
    return "".join(map(chr, cs)).encode("utf-8")


def readable(g):
    return all(s[0] == "n" or not set(s[1]) & {34, 92} for k in g.prods() for a in g.alts[k - 1] for s in a)


def woven(rng, g):
    """g with an ignored production, as it is written and as it is meant."""
    ws = gen.Gram(g.alts + [[[T(" "), N(len(g.alts) + 1)], []]], g.start)
    k = len(ws.alts)

    def weave(a):
        out = []
        for x in a:
            out += [x, N(k)]
        return out[:-1]
    return ws, gen.Gram([[weave(a) for a in x] for x in g.alts] + [ws.alts[-1]], g.start)


def chars_known(t):
    return all(ord(x) < 128 or x in p_rules.WS or x in "".join(p_rules.NAMES) + "äßЖ字é€😀" or ord(x) in {223, 228, 233, 769, 8204, 8364, 65279, 1114111} for x in t)


def grammar(rng):
    while True:
        g = p_parser.usable(rng)
        if readable(g):
            return g


def text_of(rng, g, start="start"):
    nm = gen.names(rng, g, True, start)
    inst = p_parser.instructions(rng, g, 0.3)
    return gen.rule_text(rng, g, nm, gen.order(rng, g), p_parser.sections(rng, inst)), nm


def scripts(rng, g, n):
    return [enc(s) for s in p_parser.scripts(rng, g, n, 30)]


def spoiled(rng, b):
    """Not UTF-8 any more, or another file."""
    k = rng.randrange(len(b) + 1)
    r = rng.random()
    if r < 0.6:
        return b[:k] + rng.choice(BAD) + b[k:]
    if r < 0.8:
        return b[:k] + bytes([rng.randrange(256)]) + b[k + 1:]
    return b[:-1]


def runs(c):
    """(rule file, script file) pairs: bytes, or None (missing), or "dir"."""
    rng = c.rng
    out = []
    for _ in range(c.pick(90, 1200)):       # usable grammars
        g = grammar(rng)
        if rng.random() < 0.35:
            w, meant = woven(rng, g)
            if not meant.usable():
                continue
            nm = gen.names(rng, w, True, "start")
            body = gen.rule_text(rng, g, nm[:-1], gen.order(rng, g))
            ws = "".join(map(chr, nm[-1]))
            text = "$IGNORE: %s;" % ws + body + '%s -> $[IGNORE:#] " " %s | #;' % (ws, ws)
            g = meant
        else:
            text, _ = text_of(rng, g)
        rules = text.encode()
        for s in scripts(rng, g, 6):
            r = rng.random()
            if r < 0.05:
                s = s + b"\n"
            elif r < 0.1:
                s = spoiled(rng, s)
            elif r < 0.12:
                s = b"\xef\xbb\xbf" + s
            out.append((rules, s))
    for _ in range(c.pick(60, 800)):        # grammars that are changed a little, mostly into unusable ones
        g = gen.mutated(rng, grammar(rng)) if rng.random() < 0.5 else rng.choice([gen.small, gen.careful, gen.families])(rng)
        if not readable(g):
            continue
        text, _ = text_of(rng, g, rng.choice(["start", "start", "start", "Start", "starter", None]))
        for s in (scripts(rng, g, 2) if g.usable() else [b"", b"a", b"ab"][: rng.randrange(1, 4)]):
            out.append((text.encode(), s))
    for _ in range(c.pick(80, 1500)):       # damaged rule texts
        g = grammar(rng)
        text, _ = text_of(rng, g)
        t = p_rules.damaged(rng, text)
        if not chars_known(t):
            continue
        out.append((t.encode(), rng.choice(scripts(rng, g, 2))))
    for _ in range(c.pick(60, 1000)):       # arbitrary well-formed rule files
        t = p_rules.rule_file(rng, rng.choice([2, 4]), rng.choice([0, .5]), .3, ["start"] + rng.sample(p_rules.NAMES[1:], 2))
        out.append((t.encode(), rng.choice([b"", b"a", b"b", b"ab", b"start"])))
    simple = [(b'start -> "a" start | #;', b"aaa"), ('start->"é€" x|#;x->"\U0001F600"|#;'.encode(), "é€\U0001F600".encode()),
              (b'$IGNORE: ws; start -> "a" "b"; ws -> " " | #;', b"a b"), (b'start -> "a" {Add;};', b"a")]
    for r, s in simple:
        for x in [None, "dir", b"", b"\xef\xbb\xbf" + r, r + b"\n", r + b"\0"] + [r[:k] + b + r[k:] for b in BAD for k in (0, 10, len(r))]:
            out.append((x, s))
        for x in [None, "dir", b"", b"\xef\xbb\xbf" + s, s + b"\n", s + b"\r\n", s + b" ", s + b"\0", s * 2, s[:-1]] + [s[:k] + b + s[k:] for b in BAD for k in (0, 1, len(s))]:
            out.append((r, x))
        out += [(None, None), ("dir", None), (r, s), (s, r), (r, r)]
    for _ in range(c.pick(2, 10)):          # long and deep scripts
        n = rng.choice([300, 600])
        out.append((b'start -> "a" start | #;', b"a" * n))
        out.append((b'start -> "(" start ")" | "i";', b"(" * n + b"i" + b")" * (n - rng.randrange(2))))
    return out


def limits():
    os.setsid()
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_FSIZE, (64 << 20, 64 << 20))
    resource.setrlimit(resource.RLIMIT_STACK, (256 << 10, 256 << 10))


NAMES = ["rules.txt", "r", "a b", "-r", "é.txt", "x.d/r", "./r"]


def run_tool(job):
    exe, d, k, rules, script = job
    rng = random.Random(k)
    w = os.path.join(d, str(k))
    os.makedirs(os.path.join(w, "x.d"))
    args = rng.sample(NAMES, 2) if rng.random() < 0.3 else ["rules", "script"]
    if "r" in args and "./r" in args:
        args = ["rules", "script"]
    if rng.random() < 0.2:
        args = [os.path.join(w, a) for a in args]
    same = rng.random() < 0.02 and rules == script
    if same:
        args[1] = args[0]
    for name, data in zip(args, (rules, script)):
        p = os.path.join(w, name)
        if data == "dir":
            os.makedirs(p, exist_ok=True)
        elif data is not None:
            with open(p, "wb") as f:
                f.write(data)
    as_bytes = lambda x: [list(x)] if isinstance(x, bytes) else []
    o = {"id": k, "rules": as_bytes(rules), "script": as_bytes(script), "args": args, "end": "exit", "status": 0, "steps": []}
    p = subprocess.Popen([exe] + args, cwd=w, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                         preexec_fn=limits, env={"PATH": "/usr/bin:/bin"})
    try:
        rc = p.wait(timeout=30)
        o["end"], o["status"] = ("signal", -rc) if rc < 0 else ("exit", rc)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.wait()
        o["end"] = "timeout"
    shutil.rmtree(w, ignore_errors=True)
    return o


def run(c):
    core.stale_guard()
    env = dict(os.environ, CARGO_TARGET_DIR=core.TARGET, RUSTFLAGS="-Awarnings")
    r = subprocess.run(["cargo", "build", "--offline", "--quiet", "--bins", "--manifest-path", core.REPO + "/Cargo.toml"],
                       env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=core.ROOT)
    if r.returncode:
        raise core.ToolError("build failed:\n" + r.stdout[-3000:])
    exe = os.path.join(core.TARGET, "debug", "henriks-parsing-project")
    c.design("MCUtf8", note="all sequences of boundary characters and of boundary bytes: decoding inverts encoding, nothing else is valid")
    c.design("MCTool", note="13 rule files, correct and flawed, with all scripts up to 5 bytes: ends, status zero exactly for the language written beside the rule file")
    d = c.path("files")
    jobs = [(exe, d, k, r, s) for k, (r, s) in enumerate(runs(c))]
    with ThreadPoolExecutor(core.NPROC) as pool:
        seen = list(pool.map(run_tool, jobs))
    c.detail["exit_zero"] = sum(1 for o in seen if o["end"] == "exit" and o["status"] == 0)
    shutil.rmtree(d, ignore_errors=True)
    c.judge("TraceTool", seen, what="runs of the tool")
    c.assumptions += ["files are regular files, directories or missing; permissions are not varied (the checks run as root)", "both arguments are given and are UTF-8"]
