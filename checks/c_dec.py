"""P12: decimal arithmetic is exact where representable, else an error."""
import random
import vlib
from checks.num import big, dec, dectext

MAX = 2 ** 96 - 1
BIN = ["+", "-", "*", "/", "mod"]


def mk(c, e):
    """The text of c * 10^-e."""
    s = str(abs(c)).rjust(e + 1, "0")
    return ("-" if c < 0 and c else "") + (s[:-e] + "." + s[-e:] if e else s)


def coef(r):
    k = r.random()
    if k < .2:
        return r.choice([0, 1, 1, 2, 5, 10, 25, 100, 999, 1000])
    if k < .35:
        return MAX - r.choice([0, 1, 2, 3, 10])
    if k < .5:
        return max(0, min(MAX, 2 ** r.randrange(96) + r.randint(-1, 1)))
    if k < .6:
        return max(1, min(MAX, 10 ** r.randrange(29) + r.randint(-1, 1)))
    if k < .75:
        return min(MAX, r.choice([2, 5]) ** r.randrange(1, 60))
    return r.getrandbits(r.randint(1, 95))


def number(r):
    c = coef(r)
    return mk(c * r.choice([1, 1, -1]), r.choice([0, 0, 0, 1, 2, 3, 14, 27, 28, r.randrange(29)]))


def small(r):
    return mk(r.choice([1, 1, -1]) * r.randrange(r.choice([10, 100, 10000])), r.choice([0, 0, 1, 2, 3]))


def pair(r, o):
    k = r.random()
    if k < .2:
        return number(r), number(r)
    if k < .4:
        return number(r), small(r)
    a, b = small(r), small(r)
    if k < .6:
        return a, b
    s, e = r.choice([1, -1]), r.choice([0, 0, 1, 5, 28])
    if o in "+-":       # close to a limit, or different scales
        x = r.randrange(MAX)
        y = MAX - x + r.choice([-1, 0, 0, 1, 2, 10 ** 5])
        y = max(0, min(MAX, y))
        return mk(s * x, e), mk(s * y * (1 if o == "+" else -1), e)
    if o == "*":
        x = r.randrange(1, 2 ** r.randint(2, 95))
        y = max(1, min(MAX, MAX // x + r.choice([-1, 0, 0, 1])))
        return mk(s * x, r.choice([0, 0, 1, 10, 20])), mk(y, r.choice([0, 0, 1, 8, 9, 18]))
    if o == "/":        # quotients that end
        q, y = r.randrange(1, 2 ** r.randint(1, 47)), r.choice([r.randrange(1, 2 ** r.randint(1, 47)), 2 ** r.randrange(20), 5 ** r.randrange(20)])
        if r.random() < .4:
            return mk(s * r.randrange(1, 10 ** 12), r.choice([0, 2])), mk(y, r.choice([0, 3, 28]))
        if r.random() < .15:
            return number(r), r.choice(["0", "0.0", "-0", "0.1", "0.0000000000000000000000000001"])
        return mk(s * q * y, r.choice([0, 3, 9])), mk(y, r.choice([0, 2, 9]))
    q, y = r.randrange(1, 2 ** r.randint(1, 40)), r.randrange(1, 2 ** r.randint(1, 50))
    return mk(s * min(MAX, q * y + r.choice([0, 0, 1, -1, y // 2])), e), mk(r.choice([1, -1]) * y, r.choice([0, e, 3]))


def program(r, depth):
    ins = lambda t, v="0", o="", n=0: {"t": t, "v": dec(v), "o": o, "n": n}

    def leaf():
        t = (number(r) if r.random() < .2 else small(r)).lstrip("-")
        return [ins("n", t)], t

    def go(d):
        c = r.random()
        if d == 0 or c < .1:
            return leaf()
        if c < .6:
            (p, x), (q, y), o = go(d - 1), go(d - 1), r.choice(BIN + ["+", "*"])
            return p + q + [ins("bin", o=o)], "(%s %s %s)" % (x, o, y)
        if c < .72:
            p, x = go(d - 1)
            return p + [ins("una", o="-")], "(-(%s))" % x
        if c < .76:
            n = r.randrange(30)
            return [ins("n", str(n)), ins("una", o="!")], "(%d!)" % n
        if c < .84:
            t, n = small(r).lstrip("-"), r.randint(-4, 6)
            return [ins("n", t), ins("pow", n=n)], "(%s ^ %s)" % (t, n if n >= 0 else "(-%d)" % -n)
        f = r.choice(["sum", "product", "avg", "max", "min", "floor", "ceil", "truncate"])
        n = 1 if f in ("floor", "ceil", "truncate") else r.randint(2, 4) if d > 1 or r.random() < .9 else r.randint(5, 40)
        ps = [go(d - 1) for _ in range(n)]
        return [i for p, _ in ps for i in p] + [ins("fn", o=f, n=n)], "%s(%s)" % (f, ", ".join(x for _, x in ps))
    return go(depth)


def outcome(y):
    return {"k": y["k"], "v": dec(y["v"][0] if y["k"] == "ok" else "0")}


def run(c):
    c.build()
    r = random.Random("dec%d" % c.seed)
    c.model("MCBig", ["Arithmetic", "Division", "Small", "Powers"], consts={"Base": 10, "Max": c.pick(60, 250)})
    c.model("MCDec", ["Agrees", "Held"], consts={"Coefs": {1, 2, 3, 5, 7, 10, 20, 99, 125, 199} if not c.thorough() else {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 15, 20, 25, 50, 64, 99, 100, 125, 150, 190, 198, 199}, "Steps": 1}, spec="Spec")
    c.model("MCDec", ["Agrees", "Held"], consts={"Coefs": {1, 3, 25, 199} if not c.thorough() else {1, 2, 3, 5, 25, 125, 199}, "Steps": 2}, spec="Spec")
    rows = []       # ctx call: kind, as, o, n, args
    for o in BIN:
        for _ in range(c.pick(150, 1500)):
            rows.append(("bin", "bin", o, 0, [pair(r, o) for _ in range(20)]))
    for o in ("-", "+"):
        rows.append(("una", "una", o, 0, [(number(r),) for _ in range(100)]))
    rows.append(("una", "una", "!", 0, [(t,) for n in range(60) for t in ([str(n), str(n) + ".000", str(-n)] if n else ["0", "0.0", "-0"])] + [(mk(10 ** k, 0),) for k in range(29)]))
    for f in ("floor", "ceil", "truncate", "round"):
        for _ in range(c.pick(20, 200)):
            halves = [mk(r.choice([1, -1]) * (10 * r.randrange(50) + 5), 1) for _ in range(10)]
            rows.append(("fn", "fn", f, 0, [(number(r),) for _ in range(20)] + [(small(r),) for _ in range(20)] + [(h,) for h in halves]))
    for f in ("sum", "product", "avg", "max", "min"):
        for _ in range(c.pick(60, 600)):
            ls = []
            for _ in range(12):
                n = r.choice([1, 2, 2, 3, 4, 6, 9]) if f not in ("max", "min") else r.choice([2, 2, 3, 4, 6])
                l = [number(r) if r.random() < .35 else small(r) for _ in range(n)]
                if r.random() < .3 and f != "product":
                    l = [mk(r.choice([1, -1]) * (MAX - r.randrange(3)), 0) for _ in range(n)]
                ls.append(tuple(l))
            rows.append(("fn", "fn", f, 0, ls))
        ls = []
        for n in (8, 9, 12, 16, 17, 31, 33, 63, 65, 100, 129, 200, 257):
            l = [r.choice(["1", "1.0", "-1"]) if f == "product" else small(r) for _ in range(n)]
            for _ in range(r.randint(1, 3)):
                l[r.choice([0, n - 1, n - 2, r.randrange(n)])] = r.choice(["12345.678", "-0.0005", "99999", "-99999", "7"])
            ls.append(tuple(l))
        rows.append(("fn", "fn", f, 0, ls))
    for n in list(range(-12, 31)) + [32, 40, 48, 60, 64, 80, 93, 95, 96, 97, -28, -29, -27, -60, -96]:
        for _ in range(c.pick(4, 40)):
            xs = ["0", "1", "-1", "2", "-2", "0.5", "10", "0.1", "-0.1", "5", "1.5", "0.2"]
            for _ in range(25):
                d = max(1, 80 // max(1, abs(n)))
                v = r.randrange(10 ** min(d, 28)) * r.choice([1, -1])
                if n > 1 and r.random() < .4:       # next to the largest decimal
                    v = int(round(MAX ** (1 / n))) + r.choice([-1, 0, 1])
                    if len(str(v)) * n > 80:
                        v = 2
                xs.append(mk(v, r.choice([0, 0, 0, 1, 2, 5])))
            xs = [x for x in xs if len(x.lstrip("-").replace(".", "").strip("0")) * max(1, abs(n)) <= 80]
            rows.append(("pow", "bin", "^", n, [(x,) for x in xs]))
    cases = []
    for j, (kind, how, o, n, args) in enumerate(rows):
        cases.append({"ctx": "dec", "call": o, "as": how, "args": [list(a) + ([r.choice([str(n), "%d.0" % n])] if kind == "pow" else []) for a in args], "j": j})
    recs = []
    for x in c.real(cases):
        kind, how, o, n, args = rows[x["j"]]
        res = x["res"] if isinstance(x["res"], list) else [{"k": x["res"], "v": []}] * len(args)
        recs.append({"kind": kind, "o": o, "n": n, "args": [[dec(v) for v in a] for a in args], "outs": [outcome(y) for y in res]})
        c.count("operations", len(args))
    progs, cases = [], []
    for j in range(c.pick(4000, 40000)):
        p, x = program(r, r.randint(1, 4))
        progs.append((p, x))
        cases.append({"ctx": "dec", "text": x, "j": j})
    for x in c.real(cases):
        p, t = progs[x["j"]]
        y = x["res"][0] if isinstance(x["res"], list) else {"k": x["res"], "v": []}
        recs.append({"kind": "prog", "o": t, "n": 0, "args": [p], "outs": [outcome(y)]})
        c.count("expressions")
    r.shuffle(recs)
    tr = c.path("dec.tr")
    vlib.write_lines(tr, recs)
    _, bad, _ = c.validate("TraceDec", tr)
    c.count("traces_validated_against_impl", len(recs))
    for i, what in bad:
        x, j = recs[i], int(what.split()[0])
        a = [dectext(v) for v in x["args"][j]] if x["kind"] != "prog" else ""
        got = x["outs"][j]
        c.violation("%s:%s:%s" % (x["o"], x["n"], a), "%s %s %s gives %s %s, specified: %s" % (x["o"], x["n"] or "", a, got["k"], dectext(got["v"]), what.split(" ", 1)[1]), None)
    for x in recs[:6]:
        c.sample({"op": x["o"], "n": x["n"], "args": [dectext(v) for v in x["args"][0]] if x["kind"] != "prog" else "", "out": [x["outs"][0]["k"], dectext(x["outs"][0]["v"])]})
    c.log("TraceDec: %d records, %d rejected" % (len(recs), len(bad)))
