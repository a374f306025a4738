"""P14: the binary context."""
import json, random
import vlib

ALIAS = ["&", "and", "|", "or", "^", "xor", "<<", "shl", ">>", "shr", "==", "eq", "equal", "!=", "ne", "no_equal", "<", "lt", "<=", "lte", ">", "gt", ">=", "gte"]
TOP = 1 << 127


def value(r):
    c = r.random()
    if c < .3:
        v = r.choice([0, 1, 2, 3, 5, 127, 128, 126, 64, 63, 10, TOP - 1, TOP - 2, TOP >> 1])
    elif c < .6:
        v = (1 << r.randrange(127)) + r.randint(-1, 1)
    else:
        v = r.getrandbits(r.randint(1, 127))
    return v


def lit(r):
    v = value(r)
    if r.random() < .06:
        v = r.choice([TOP, TOP + 1, 2 * TOP - 1, 2 * TOP, 10 ** 40])
    s = ("b" + "0" * r.choice([0, 0, 0, 1, 5, 120]) + bin(v)[2:]) if r.random() < .5 else "0" * r.choice([0, 0, 2, 40]) + str(v)
    if r.random() < .02:
        s = r.choice(["b12", "b102", "b0b1", "b1x", "b", "B101", "1.5", "b1.0", "0b11", "b1b1", "b 1", "b9"])
    return s


def spaced(r, a, o, b):
    """Words need their blanks; symbols do not, unless two of them or `b` would run together."""
    if o.isidentifier() or r.random() < .6 or not b[:1].isalnum():
        return "%s %s %s" % (a, o, b)
    return a + o + b


def operand(r, d):
    c = r.random()
    if d == 0 or c < .55:
        s = lit(r)
        return {"t": "lit", "s": vlib.chars(s)}, s
    if c < .75:
        x, t = operand(r, d - 1)
        o = r.choice(["~", "not"])
        return {"t": "una", "x": x}, (o + " " + t if o == "not" or r.random() < .5 or not (t[0].isalnum() or t[0] == "(") else o + t)
    e, t = expr(r, d - 1)
    return {"t": "par", "e": e}, "(" + t + ")"


def expr(r, d):
    x, t = operand(r, d)
    e = [x]
    for _ in range(r.choice([0, 1, 1, 2, 3, 5])):
        o = r.choice(ALIAS)
        if o in ("<<", ">>", "shl", "shr") and r.random() < .7:
            s = str(r.choice([0, 1, 2, 64, 126, 127, 128, 129, r.randrange(128)]))
            y, u = {"t": "lit", "s": vlib.chars(s)}, s
        else:
            y, u = operand(r, d)
        t = spaced(r, t, o, u)
        if r.random() < .1:
            o2 = "".join(r.choice([c.upper(), c.lower()]) for c in o)
            t = t.replace(" %s " % o, " %s " % o2)
        e += [o, y]
    return e, t


def show(y):
    if y["k"] == "ok":
        return {"k": "ok", "v": list(y["v"][1]), "d": list(y["v"][0])}
    return {"k": y["k"], "v": [], "d": []}


def run(c):
    c.build()
    r = random.Random("bits%d" % c.seed)
    for w in (4, 8) if c.thorough() else (4,):
        c.model("MCBits", ["Two", "Meaning", "Shifts", "ReadsBack", "Decimals", "TooLarge"], consts={"W": w})
    # every pair of operators, under every alias
    def render(e):
        def one(x):
            return x if isinstance(x, str) else "~" + one(x["x"]) if x["t"] == "una" else vlib.text(x["s"])
        return " ".join(one(x) for x in e)
    runs = [({"5", "2", "max"}, set(ALIAS), 1), ({"5", "2", "128", "127", "0"}, {"&", "|", "^", "<<", ">>", "==", "<", "gte"}, 1),
            ({"1", "5"}, set(ALIAS), 2) if c.thorough() else ({"5"}, {"and", "|", "^", "shl", ">>", "eq", "!=", "<", "lte", "gt", ">="}, 2)]
    if c.thorough():
        runs += [({"0", "1", "2", "5", "127", "128", "max", "over"}, set(ALIAS), 1), ({"2", "5", "max"}, {"&", "|", "^", "<<", "==", "<"}, 2), ({"5"}, {"&", "|", "^", "<<", ">>", "==", "!=", "<"}, 3)]
    n = 0
    for j, (lits, ops, depth) in enumerate(runs):
        out = c.path("bin%d" % j)
        c.model("MCBinary", ["LeftToRight", "Emitted"], consts={"Ops": ops, "Lits": lits, "Depth": depth}, env={"VH_OUT": out}, spec="Spec")
        beh = [json.loads(json.loads(l)) for l in open(out)]
        for x in c.real([{"ctx": "bin", "text": render(b["e"]), "want": [b["k"], "".join(b["v"])]} for b in beh]):
            y = x["res"][0] if isinstance(x["res"], list) else {"k": x["res"], "v": []}
            got = [y["k"], y["v"][1] if y["k"] == "ok" else ""]
            if got != x["want"]:
                c.violation(x["text"], "%s gives %s, the specification %s" % (x["text"], got, x["want"]), x)
            n += 1
    c.count("behaviours_replayed", n)
    c.log("%d expressions replayed" % n)
    recs, cases = [], []
    for _ in range(c.pick(6000, 60000)):
        e, t = expr(r, r.choice([0, 1, 1, 2, 3]))
        recs.append({"e": e, "text": t})
        cases.append({"ctx": "bin", "text": t})
    for o in ALIAS:      # operators applied to signed operands directly
        pairs = []
        for _ in range(c.pick(60, 400)):
            a, b = (value(r) * r.choice([1, -1]) for _ in "ab")
            if o in ("<<", "shl", ">>", "shr") and r.random() < .8:
                b = r.randint(-2, 130)
            elif r.random() < .2:
                b = a + r.randint(-1, 1)
            a, b = (r.choice([x, x, x, -TOP]) if r.random() < .1 else max(-TOP, min(TOP - 1, x)) for x in (a, b))
            pairs.append((str(a), str(b)))
        for a, b in pairs:
            recs.append({"e": [{"t": "slit", "s": list(a)}, o, {"t": "slit", "s": list(b)}], "text": "%s %s %s" % (a, o, b)})
            cases.append({"ctx": "bin", "call": o, "as": "bin", "args": [[a, b]]})
    for o in ("~", "not"):
        for _ in range(60):
            a = str(value(r) * r.choice([1, -1]))
            recs.append({"e": [{"t": "una", "x": {"t": "slit", "s": list(a)}}], "text": "%s %s" % (o, a)})
            cases.append({"ctx": "bin", "call": o, "as": "una", "args": [[a]]})
    for i, x in enumerate(cases):
        x["i"] = i
    back = []
    for x in c.real(cases):
        y = x["res"][0] if isinstance(x["res"], list) else {"k": x["res"], "v": []}
        recs[x["i"]]["out"] = show(y)
        if y["k"] == "ok" and not y["v"][0].startswith("-"):
            back.append("b" + y["v"][1])
    for x in c.real([{"ctx": "bin", "text": t} for t in sorted(set(back))]):
        y = x["res"][0] if isinstance(x["res"], list) else {"k": x["res"], "v": []}
        recs.append({"e": [{"t": "lit", "s": list(x["text"])}], "text": x["text"], "out": show(y)})
    tr = c.path("bits.tr")
    vlib.write_lines(tr, recs)
    _, bad, _ = c.validate("TraceBits", tr)
    c.count("traces_validated_against_impl", len(recs))
    for i, what in bad:
        x = recs[i]
        c.violation(x["text"], "%s gives %s %s, the specification %s" % (x["text"], x["out"]["k"], "".join(x["out"]["v"]), what[:300]), x)
    c.count("values", sum(x["out"]["k"] == "ok" for x in recs))
    for x in recs[:6]:
        c.sample({"text": x["text"], "out": [x["out"]["k"], "".join(x["out"]["v"])]})
    c.log("TraceBits: %d records, %d rejected" % (len(recs), len(bad)))
