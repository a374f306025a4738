"""P19: interactive sessions of the real program, driven through a pseudo-terminal."""
import fcntl, itertools, json, os, pty, random, re, select, signal, struct, subprocess, termios, time
from collections import defaultdict, deque
from concurrent.futures import ThreadPoolExecutor
import vlib
from vlib import chars as ch, text

BYTES = {"enter": b"\n", "up": b"\x1b[A", "down": b"\x1b[B", "right": b"\x1b[C", "left": b"\x1b[D", "back": b"\x7f", "esc": b"\x1b", "tab": b"\t",
         "home": b"\x1b[H", "end": b"\x1b[F", "del": b"\x1b[3~", "pgup": b"\x1b[5~", "f1": b"\x1bOP", "f5": b"\x1b[15~"}
TYPES = ["decimal", "float", "integer", "complex", "binary"]
SGR = re.compile(r"\x1b\[[0-9;]*m")


def build_bins(c):
    t = time.time()
    r = subprocess.run(["cargo", "build", "--workspace", "--all-features", "--bins", "--offline", "--quiet"], cwd=vlib.REPO, env=vlib.ENV,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=800)
    if r.returncode != 0:
        raise vlib.ToolError("the programs do not build:\n" + r.stdout[-3000:])
    c.log("programs built in %.1fs" % (time.time() - t))
    return os.path.join(vlib.REPO, "target/debug")


def drive(exe, args, keys, final, slow=False, limit=60):
    """The raw output, the error lines, and the exit code (None: still running after the last key)."""
    m, s = pty.openpty()
    a = termios.tcgetattr(s)
    a[0] &= ~(termios.ICRNL | termios.INLCR | termios.IXON | termios.ISTRIP)
    a[1] &= ~termios.OPOST
    a[3] &= ~(termios.ECHO | termios.ICANON | termios.ISIG | termios.IEXTEN)
    termios.tcsetattr(s, termios.TCSANOW, a)
    er, ew = os.pipe()
    env = {"PATH": "/usr/bin:/bin", "TERM": "xterm", "HOME": "/tmp"}
    p = subprocess.Popen([exe] + args, stdin=s, stdout=s, stderr=ew, env=env, start_new_session=True)
    os.close(ew)
    out, err = bytearray(), bytearray()
    fds = {m: out, er: err}

    def pump(t):
        """reads what there is; True if anything came"""
        got = False
        r, _, _ = select.select(list(fds), [], [], t)
        for f in r:
            try:
                d = os.read(f, 65536)
            except OSError:
                d = b""
            if d:
                fds[f].extend(d)
                got = True
            else:
                del fds[f]
        return got

    end = time.time() + limit
    while b"\n" not in out and time.time() < end and fds:       # the greeting
        pump(1)
    # a key at a time: the program's reader loses track of what comes faster than it reads
    chunks = [k[1].encode() if k[0] == "char" else BYTES.get(k[0]) for k in keys]
    unread = lambda: struct.unpack("i", fcntl.ioctl(s, termios.FIONREAD, b"\0\0\0\0"))[0]
    for x in chunks:
        if x in (b"\x1b", None):
            while pump(.3) and time.time() < end:
                pass
        if x is None:           # Ctrl-C
            p.send_signal(signal.SIGINT)
            break
        try:
            os.write(m, x)
        except OSError:
            break
        # the program's reader wants no more than it can take at once
        n = 0
        while unread() and time.time() < end:
            n += 1
            pump(0 if n < 40 else .002)
            if n > 200 and p.poll() is not None:
                break
        pump(.005 if slow else 0)
    quiet = 0
    while time.time() < end:
        if pump(.1):
            quiet = 0
        elif p.poll() is not None:
            break
        else:
            quiet += 1
            if quiet >= (6 if not final else 50) and not unread():
                break
    code = p.poll()
    if code is None:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()
    for f in (m, s, er):
        os.close(f)
    return bytes(out), bytes(err), code


def events(raw):
    """What the terminal was told, without colours and prompts."""
    t = SGR.sub("", raw.decode(errors="replace")).replace(">>> ", "")
    t = t.split("\n", 1)[1] if "\n" in t else ""        # after the greeting
    t = re.sub(r"\x1b\[2K\x1b\[\d*D", "\x01", t).replace("\x08 \x08", "\x02")
    names = {"\n": "NL", "\x01": "REWRITE", "\x02": "BACK"}
    return [names.get(c) or ch(c)[0] for c in t]


def tours(path, maxkeys):
    """Walks from the initial states that take every transition written in the file."""
    ids, start, edges = {}, {}, defaultdict(dict)
    nid = lambda s: ids.setdefault(json.dumps(s, sort_keys=True), len(ids))
    n = 0
    for l in open(path):
        x = json.loads(l)
        x = json.loads(x) if isinstance(x, str) else x
        a, b = nid(x["f"]), nid(x["t"])
        if x["f"]["buf"] == [] and x["f"]["hist"] == []:
            start[x["f"]["cap"]] = a
        if tuple(x["k"]) not in edges[a]:
            edges[a][tuple(x["k"])] = b
            n += 1
    left = {a: list(e) for a, e in edges.items()}
    walks, remaining = [], n
    for cap, s in sorted(start.items()):
        while True:
            walk, at = [], s
            while len(walk) < maxkeys:
                if left.get(at):
                    k = left[at].pop()
                    walk.append(list(k))
                    at = edges[at][k]
                    remaining -= 1
                    continue
                # the nearest state with a transition not taken yet
                prev, q, goal = {at: None}, deque([at]), None
                while q and goal is None:
                    u = q.popleft()
                    for k, v in edges[u].items():
                        if v not in prev:
                            prev[v] = (u, k)
                            if left.get(v):
                                goal = v
                                break
                            q.append(v)
                if goal is None:
                    break
                path_, v = [], goal
                while prev[v]:
                    path_.append(list(prev[v][1]))
                    v = prev[v][0]
                walk += path_[::-1]
                at = goal
            if not walk or not any(left.get(v) for v in left):
                if walk:
                    walks.append((cap, walk))
                break
            walks.append((cap, walk))
            # anything left that this start reaches?
            seen, q = {s}, deque([s])
            while q:
                u = q.popleft()
                for v in edges[u].values():
                    if v not in seen:
                        seen.add(v)
                        q.append(v)
            if not any(left.get(v) for v in seen):
                break
    if remaining:
        raise vlib.ToolError("%d transitions in no tour" % remaining)
    return walks, n, len(ids)


NUM = {"decimal": lambda r: r.choice(["%d" % r.randint(0, 99), "%d.%02d" % (r.randint(0, 9), r.randint(0, 99)), "0", "79228162514264337593543950335"]),
       "float": lambda r: r.choice(["%d" % r.randint(0, 99), "%d.%d" % (r.randint(0, 9), r.randint(0, 99)), "0"]),
       "integer": lambda r: r.choice([str(r.randint(0, 99)), "0", str(r.randint(0, 10 ** 20))]),
       "complex": lambda r: r.choice(["%d" % r.randint(0, 9), "%di" % r.randint(0, 9), "i", "2.5"]),
       "binary": lambda r: r.choice(["b" + bin(r.randint(0, 31))[2:], str(r.randint(0, 40)), "b0"])}
OPS = {"decimal": ["+", "-", "*", "/", "^", "mod"], "float": ["+", "-", "*", "/", "^", "mod"], "integer": ["+", "-", "*", "/", "mod"],
       "complex": ["+", "-", "*", "/"], "binary": ["&", "|", "+", "-", "*", "and", "<<"]}
NAMES = ["x", "y", "X", "rate", "$result", "$a", "a_long_name_2", "e", "pi", "PI", "nope"]


def expression(r, ty, depth=2):
    n = lambda: r.choice([NUM[ty](r), NUM[ty](r), r.choice(NAMES), "$result"])
    t = n()
    for _ in range(r.choice([0, 1, 1, 2, 3])):
        sp = r.choice(["", " "])
        q = expression(r, ty, depth - 1) if depth and r.random() < .25 else n()
        t += sp + r.choice(OPS[ty]) + sp + (q if r.random() < .7 else "(" + q + ")")
    k = r.random()
    if k < .08:
        t = "-" + t
    elif k < .16 and ty != "binary":
        t = r.choice(["max", "sum", "sqrt", "sin", "abs", "f"]) + "(" + t + ")"
    elif k < .22:
        t = r.choice(["2", "(1)", "x"]) + r.choice(["", " "]) + t
    return t


def line(r, ty):
    k = r.random()
    if k < .02:
        t = "+".join(expression(r, ty) for _ in range(r.randint(8, 40))) if r.random() < .7 else r.choice([NUM[ty](r) + "0" * r.randint(20, 300), "n" * r.randint(60, 300) + " = " + NUM[ty](r)])
    elif k < .5:
        t = expression(r, ty)
    elif k < .75:
        t = r.choice(NAMES) + r.choice(["=", " = ", " =", "  =  "]) + (r.choice(["-", ""]) + NUM[ty](r) if r.random() < .8 else r.choice(["", "abc", "1+1", "x", " "]))
    elif k < .82:
        t = r.choice(["", " ", "   ", "\u00a0", "\u3000 "])
    elif k < .9:
        t = r.choice(["1 +", ")", "x == 1", "a=b=c", "=", "=5", "a b = 2", "1 = 2", "+ = 3", "é = 4", "é", "😀 + 1", "ex it", "exit 1", "exits", "Exit", "x = exit", "$", "$ = 1", "$$", "1/0",
                      "$result = 7", "$result", "$Result", "$result$result", "2$result", "$result 2", "b101", "5!", "f(", "sqrt(0-1)", "10^400"])
    else:
        t = expression(r, ty) + r.choice([" ", "  ", ""])
    return (r.choice(["", "", "", " "]) + t).replace(">", "")


def assignments(r, ty):
    """Lines of two to four parts between equals signs, of every kind, each followed by a look at the names."""
    kinds = [lambda: r.choice(["x", "y"]), lambda: NUM[ty](r), lambda: r.choice(["-", "- "]) + NUM[ty](r), lambda: "", lambda: r.choice(["1+1", "a b", "(2)", "x y", "$", "pi"])]
    shapes = [s for n in (2, 3) for s in itertools.product(range(5), repeat=n)] + [tuple(r.randrange(5) for _ in range(4)) for _ in range(20)]
    r.shuffle(shapes)
    for k in range(0, len(shapes), 12):
        keys = []
        for sh in shapes[k:k + 12]:
            l = r.choice(["", " "]) + r.choice(["=", " = ", "= "]).join(kinds[i]() for i in sh)
            for t in (l, r.choice(["x", "x", "y", "x+y", "$result"])):
                keys += [["char", x] for x in t.replace(">", "")] + [["enter", ""]]
        yield keys + [["esc", ""]]


def session(r, ty, n):
    keys = []
    T = lambda s: [["char", x] for x in s]
    past = []
    for _ in range(n):
        k = r.random()
        if k < .3 and past:
            # recall, perhaps edit
            for _ in range(r.randint(1, 6)):
                keys.append([r.choice(["up", "up", "up", "down"]), ""])
            if r.random() < .4:
                keys += [["back", ""]] * r.randint(1, 3) + T(r.choice(["1", " ", "+1", "", "0"]))
        elif k < .37:
            keys += [[r.choice(["up", "down", "left", "right", "back", "tab", "home", "end", "del", "pgup", "f1", "f5"]), ""] for _ in range(r.randint(1, 8))]
            continue
        else:
            l = r.choice(past) if past and r.random() < .2 else line(r, ty)
            past.append(l)
            if r.random() < .1:
                l2 = l[:r.randint(0, len(l))]
                keys += T(l2 + "zz9") + [["back", ""]] * 3 + T(l[len(l2):])
            else:
                keys += T(l)
            if r.random() < .05:
                keys += [[r.choice(["left", "right", "tab", "del"]), ""]]
        keys.append(["enter", ""])
    k = r.random()
    if k < .45:
        keys += T(r.choice(["exit", " exit", "exit  "])) + [["enter", ""]]
        if r.random() < .3:
            keys += T("1+1") + [["enter", ""]]
    elif k < .7:
        keys += T(r.choice(["", "1", "exit"])) + [["esc", ""]]
    elif k < .85:
        keys += T(r.choice(["", "1", "exit"])) + [["int", ""]]
    return keys


def speckeys(s):
    return [[k, ch(x)[0] if x else ""] for k, x in s["keys"]]


def run(c):
    c.build()
    exe = os.path.join(build_bins(c), "eval")
    r = random.Random("repl%d" % c.seed)
    c.assumptions += ["the terminal is left in the mode the driver sets (the program sets none); the library, asked line by line for the specification's tokens, gives the values"]
    # (a) every session of a few lines: the history is the one specified without the machine
    c.model("MCRepl", ["Bounded", "History", "UpDown", "Oldest"], consts={"Caps": {0, 1, 2, 3}, "MaxLine": 1, "Lines": c.pick(4, 5), "Keys": {"1", " "}}, env={"VH_OUT": c.path("none")}, spec="Spec")
    walks, total = [], 0
    for caps, ml, keys in (({0, 1, 2}, 2, ["1", "2"]), ({3}, 1, ["1", "2", " "]), ({1}, 2, ["1", " ", "x"])) + (
            () if not c.thorough() else (({3}, 2, ["1", "2"]), ({4}, 1, ["1", "2", "3"]), ({0, 1}, 3, ["1", "2", " "]))):
        out = c.path("edges%d" % len(walks))
        st = c.model("MCRepl", ["Bounded", "UpDown", "Oldest"], consts={"Caps": caps, "MaxLine": ml, "Lines": 0, "Keys": set(keys)}, env={"VH_OUT": out}, spec="Spec")
        w, n, k = tours(out, 1500)
        walks += w
        total += n
        c.log("MCRepl, %d states, %d transitions: all in %d tours of %d keys" % (k, n, len(w), sum(len(x) for _, x in w)))
    c.count("transitions_covered_in_the_program", total)
    sess = [{"cap": cap, "type": TYPES[i % 4], "keys": w} for i, (cap, w) in enumerate(walks)]
    for k in range(c.pick(160, 1500)):
        ty = TYPES[k % 5]
        cap = r.choice([0, 1, 2, 3, 5, 100, 100])
        n = r.randint(0, 14) if r.random() < .9 else r.randint(100, 130)
        sess.append({"cap": cap, "type": ty, "keys": session(r, ty, n)})
    for k, ty in enumerate(TYPES):
        if c.thorough() or k in (c.seed % 5, (c.seed + 2) % 5):
            sess += [{"cap": 100, "type": ty, "keys": keys} for keys in assignments(r, ty)]
    for i, s in enumerate(sess):
        s["i"] = i
        s["mode"] = "replbin" if s["type"] == "binary" else "repl"
        s["args"] = (["--no-color"] if r.random() < .5 else []) + ["repl"] + (["--type", s["type"]] if s["type"] != "decimal" or r.random() < .5 else [])
        s["args"] += ["--history", str(s["cap"])] if s["cap"] != 100 or r.random() < .5 else []
    # (b) the questions of their lines, and the library's answers
    asks = [[] for _ in sess]
    parts = [sess[k::vlib.CORES] for k in range(vlib.CORES)]

    def lines_of(k):
        f, o = c.path("lines%d" % k), c.path("asks%d" % k)
        if not parts[k]:
            return []
        vlib.write_lines(f, [dict({x: s[x] for x in ("i", "cap", "mode")}, keys=speckeys(s)) for s in parts[k]])
        c.tlc("ReplLines", [], env={"VH_TRACE": f, "VH_OUT": o}, workers=1, mem="3g", spec="Spec")
        return [json.loads(json.loads(l)) for l in open(o)] if os.path.exists(o) else []
    with ThreadPoolExecutor(vlib.CORES) as ex:
        for got in ex.map(lines_of, range(vlib.CORES)):
            for a in got:
                asks[a["i"]].append((a["k"], a["ask"]))
    for s, a in zip(sess, asks):
        s["final"] = ["esc", ""] in s["keys"] or ["int", ""] in s["keys"] or any(x["do"] == "exit" for _, x in a)
    ref = subprocess.run([c.vh, "session"], input="".join(json.dumps({"type": s["type"], "ops": [a for _, a in sorted(asks[s["i"]], key=lambda x: x[0]) if a["do"] in ("eval", "set")]}) + "\n"
                                                        for s in sess).encode(), stdout=subprocess.PIPE, env=vlib.ENV, check=True).stdout.decode()
    ref = [json.loads(l)["res"] for l in ref.split("\n") if l]
    # (c) the real program

    def record(s, slow=False):
        out, err, code = drive(exe, s["args"], s["keys"], s["final"], slow)
        x = {"cap": s["cap"], "mode": s["mode"], "keys": speckeys(s)}
        x.update(zero=ref[s["i"]]["zero"], lib=ref[s["i"]]["lib"], out=events(out), errs=sum(bool(l.strip()) for l in SGR.sub("", err.decode(errors="replace")).split("\n")),
                 ended=code is not None, code=code or 0)
        return x

    def judge(todo, slow):
        with ThreadPoolExecutor(4 if slow else 12) as ex:
            recs = list(ex.map(lambda s: record(s, slow), todo))
        tr = c.path("repl.tr")
        vlib.write_lines(tr, recs)
        _, bad, _ = c.validate("TraceRepl", tr, invariants=())
        return recs, bad
    recs, bad = judge(sess, False)
    if bad:
        # once more, key by key: what the driver's pace may have spoilt does not count
        again = [sess[i] for i in sorted({i for i, _ in bad})][:40]
        c.log("%d sessions differ, run again key by key" % len({i for i, _ in bad}))
        _, bad2 = judge(again, True)
        bad = [(again[i]["i"], w) for i, w in bad2]
    c.count("traces_validated_against_impl", len(sess))
    c.count("keys_pressed", sum(len(s["keys"]) for s in sess))
    c.count("lines_submitted", sum(len(a) for a in asks))
    c.count("values_printed", sum(l["k"] == "ok" for x in ref for l in x["lib"]))
    for i, what in bad:
        c.violation("session", "eval %s: %s" % (" ".join(sess[i]["args"]), what), {"session": sess[i], "record": recs[i]})
    for i in range(len(walks), len(sess), len(sess) // 6 + 1):
        c.sample({"args": sess[i]["args"], "lines": [a["do"] for _, a in asks[i]][:8], "shown": text([x if len(x) == 1 or x.startswith("U+") else " %s " % x for x in recs[i]["out"]])[:300]})
    c.log("TraceRepl: %d sessions, %d keys, %d lines, %d rejected" % (len(sess), c.cov["keys_pressed"], c.cov["lines_submitted"], len(bad)))
