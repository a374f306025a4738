"""P11: integer arithmetic is exact or an error."""
import json, random
import vlib
from checks.num import big, unbig, outcome

S = {"i8": 8, "i16": 16, "i32": 32, "i64": 64, "i128": 128, "isize": 64, "m8": 8, "m64": 64, "m128": 128, "ui64": 64, "um64": 64}
U = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "u128": 128, "usize": 64}
BIN = ["+", "-", "*", "/", "mod"]


def limits(k):
    return (-(1 << S[k] - 1), (1 << S[k] - 1) - 1) if k in S else (0, (1 << U[k]) - 1)


def operand(r, k):
    lo, hi = limits(k)
    w = hi.bit_length()
    c = r.random()
    if c < .25:
        v = r.choice([0, 1, 2, 3, -1, -2, lo, lo + 1, lo + 2, hi, hi - 1, hi - 2, lo // 2, hi // 2, hi // 2 + 1, 10, 5, 7])
    elif c < .5:
        v = (1 << r.randrange(w)) + r.randint(-2, 2)
    elif c < .6:
        v = int(hi ** .5) + r.randint(-2, 2)
    else:
        v = r.getrandbits(r.randint(1, w))
    v *= r.choice([1, -1]) if lo else 1
    return max(lo, min(hi, v))


def partner(r, k, o, a):
    """A second operand that puts the result next to a limit."""
    lo, hi = limits(k)
    L, d = r.choice([lo, hi, 0]), r.randint(-2, 2)
    b = {"+": L - a + d, "-": a - L + d, "*": (L // a if a else 0) + d, "/": r.choice([a, -a, 2, -1, 3]) + d, "mod": r.choice([a, -a, 2, -1, hi]) + d}[o]
    return max(lo, min(hi, b))


def program(r, k, depth):
    """A postfix program, its text and its variables (negative numbers cannot be literals)."""
    vs = {}

    def leaf():
        v = operand(r, k) if r.random() < .5 else max(limits(k)[0], min(limits(k)[1], r.randint(-6, 13)))
        if v < 0:
            n = "v" + "abcdefghijklmnopqrstuvwxyz"[len(vs) % 26] + "x" * (len(vs) // 26)
            vs[n] = v
            return [{"t": "n", "v": big(v), "o": "", "n": 0}], n
        return [{"t": "n", "v": big(v), "o": "", "n": 0}], str(v)

    def go(d):
        c = r.random()
        if d == 0 or c < .15:
            return leaf()
        if c < .65:
            (p, x), (q, y), o = go(d - 1), go(d - 1), r.choice(BIN)
            return p + q + [{"t": "bin", "v": big(0), "o": o, "n": 0}], "(%s %s %s)" % (x, o, y)
        if c < .75:
            p, x = go(d - 1)
            o = r.choice(["-", "!", "+"]) if k in S else "!"
            return p + [{"t": "una", "v": big(0), "o": o, "n": 0}], "((%s)!)" % x if o == "!" else "(%s(%s))" % (o, x)
        if c < .8 and k in S and k != "ui64" and k != "um64":
            p, x = go(d - 1)
            return p + [{"t": "fn", "v": big(0), "o": "abs", "n": 1}], "abs(%s)" % x
        f, n = r.choice(["sum", "product", "avg", "max", "min"]), r.randint(1, 4) if d > 1 or r.random() < .9 else r.randint(5, 40)
        ps = [go(d - 1) for _ in range(n)]
        return [i for p, _ in ps for i in p] + [{"t": "fn", "v": big(0), "o": f, "n": n}], "%s(%s)" % (f, ", ".join(x for _, x in ps))
    p, x = go(depth)
    return p, x, sorted(vs.items())


def run(c):
    c.build()
    r = random.Random("ints%d" % c.seed)
    # the arithmetic of the specification itself
    c.model("MCBig", ["Arithmetic", "Division", "Small", "Powers"], consts={"Base": 4, "Max": c.pick(60, 250)})
    c.model("MCBig", ["Arithmetic", "Division", "Small", "Powers"], consts={"Base": 10000, "Max": c.pick(12, 40)})
    c.model("MCInts", ["Bounded", "AgreesWithDirect", "OrderOfSum"], consts={"Bits": 4, "Chosen": set(range(16)), "Few": set(range(c.pick(4, 0), 16)), "Steps": 1, "Emit": False}, env={"VH_OUT": "/dev/null"}, spec="Spec")
    # calculators over i8, replayed
    out = c.path("calc")
    c.model("MCInts", ["Bounded", "AgreesWithDirect", "Emitted"],
            consts={"Bits": 8, "Chosen": {x + 128 for x in ({-128, -127, -11, -1, 0, 2, 5, 64, 127} if not c.thorough() else {-128, -127, -126, -64, -12, -11, -3, -2, -1, 0, 1, 2, 3, 4, 5, 6, 11, 12, 16, 63, 64, 126, 127})},
                    "Few": {127, 131}, "Steps": 2, "Emit": True}, env={"VH_OUT": out}, spec="Spec")
    beh = [json.loads(json.loads(l)) for l in open(out)]
    cases = []
    for b in beh:
        st, vs = [], {}
        for i in b["prog"]:
            if i["t"] == "n":
                if i["v"] < 0:
                    n = "n%s" % "abcdefgh"[len(vs)]
                    vs[n] = str(i["v"])
                    st.append(n)
                else:
                    st.append(str(i["v"]))
            elif i["t"] in ("bin", "rev"):
                y, x = st.pop(), st.pop()
                if i["t"] == "rev":
                    x, y = y, x
                st.append("(%s %s %s)" % (x, i["o"], y))
            elif i["t"] == "una":
                x = st.pop()
                st.append("(%s!)" % x if i["o"] == "!" else "(-%s)" % x)
            else:
                a = st[len(st) - i["n"]:]
                del st[len(st) - i["n"]:]
                st.append("%s(%s)" % (i["o"], ", ".join(a)))
        for k in ("i8", "m8"):
            cases.append({"ctx": k, "set": sorted(vs.items()), "text": st[0], "want": [b["k"], b["v"]]})
    for x in c.real(cases):
        y = x["res"][0] if isinstance(x["res"], list) else {"k": x["res"], "v": []}
        got = [y["k"], int(y["v"][0]) if y["k"] == "ok" else 0]
        if got != x["want"] if x["want"][0] == "ok" else got[0] != "err":
            c.violation("%s:%s" % (x["ctx"], x["text"]), "%s: %s with %s gives %s, the specification %s" % (x["ctx"], x["text"], x["set"], got, x["want"]), x)
    c.log("%d calculator behaviours replayed" % len(cases))
    c.count("behaviours_replayed", len(cases))
    # rows of results: all of i8, chosen operands elsewhere
    rows = []       # (ctx, kind, as, o, args)
    full = range(-128, 128)
    for o in BIN:
        for k in ("i8", "m8"):
            for a in full:
                rows.append((k, "bin", "bin", o, [(a, b) for b in (full if k == "i8" or c.thorough() else r.sample(full, 16))]))
        for a in range(256):
            rows.append(("u8", "bin", "bin", o, [(a, b) for b in (range(256) if c.thorough() else sorted(set(r.sample(range(256), 30) + [0, 1, 255, a])))]))
    for k in list(S) + list(U):
        lo, hi = limits(k)
        for o in BIN:
            for m in ["bin"] + (["plain"] if k in ("m8", "m64", "m128", "um64") else []):
                for _ in range(c.pick(10, 120)):
                    pairs = []
                    for _ in range(c.pick(16, 40)):
                        a = operand(r, k)
                        pairs.append((a, partner(r, k, o, a) if r.random() < .7 else operand(r, k)))
                    rows.append((k, "bin", m, o, pairs))
        for o in (["-", "+"] if k in S else ["+"]):
            rows.append((k, "una", "una", o, [(operand(r, k),) for _ in range(60)] + [(lo,), (hi,), (0,)]))
        rows.append((k, "una", "una", "!", [(v,) for v in list(range(0, 40)) + [operand(r, k) for _ in range(20)] if lo <= v <= hi]))
        if k in ("m8", "m64", "m128", "um64"):
            rows.append((k, "una", "plain", "-", [(operand(r, k),) for _ in range(60)] + [(lo,), (hi,), (0,)]))
            for o in ("max", "min"):
                rows.append((k, "fn", "plain", o, [(operand(r, k), operand(r, k)) for _ in range(40)]))
        for f in ["sum", "product", "avg", "max", "min"] + (["abs"] if k in S and k[:2] != "ui" and k != "um64" else []):
            for _ in range(c.pick(6, 60)):
                lists = []
                for _ in range(12):
                    n = r.choice([1, 1, 2, 2, 3, 4, 7]) if f != "abs" else 1
                    l = [operand(r, k) for _ in range(n)]
                    if f in ("sum", "avg", "product") and r.random() < .6:      # a long list whose running result stays near a limit
                        l, t = [], 0 if f != "product" else 1
                        for _ in range(r.randint(1, 8)):
                            L = r.choice([lo, hi, 0, 1])
                            v = (L - t if f != "product" else (L // t if t else r.randint(0, 3))) // r.choice([1, 1, 2, 3]) + r.choice([0, 0, 0, 1, -1])
                            v = max(lo, min(hi, v))
                            l.append(v)
                            t = t + v if f != "product" else t * v
                            if not lo <= t <= hi:
                                break
                    lists.append(tuple(l))
                rows.append((k, "fn", "fn", f, lists))
        for f in ("sum", "product", "avg", "max", "min"):       # long lists, one of them decides
            ls = []
            for n in (8, 9, 12, 16, 17, 31, 33, 63, 65, 100, 129, 200, 257, 400):
                l = [r.choice([1, 1, -1] if lo else [1]) if f == "product" else max(lo, min(hi, r.randint(-9, 9))) for _ in range(n)]
                for _ in range(r.randint(1, 3)):
                    l[r.choice([0, n - 1, n - 2, r.randrange(n)])] = r.choice([operand(r, k), 3, 2, 10, 11])
                ls.append(tuple(l))
            rows.append((k, "fn", "fn", f, ls))
        for f in ("sum", "avg"):       # counts about what the type can hold
            rows.append((k, "fn", "fn", f, [tuple(r.choice([0, 1] + ([-1] if lo else [])) for _ in range(n)) for n in (100, 126, 127, 128, 129, 255, 256, 257, 300)]))
    cases = [{"ctx": k, "call": o, "as": m, "args": [[str(v) for v in a] for a in args], "j": j} for j, (k, kind, m, o, args) in enumerate(rows)]
    recs = []
    for x in c.real(cases):
        k, kind, m, o, args = rows[x["j"]]
        res = x["res"] if isinstance(x["res"], list) else [{"k": x["res"], "v": []}] * len(args)
        recs.append({"ctx": k, "kind": kind, "plain": m == "plain", "o": o, "args": [[big(v) for v in a] for a in args], "outs": [outcome(y) for y in res]})
        c.count("operations", len(args))
    # whole expressions
    progs, cases = [], []
    for j in range(c.pick(4000, 40000)):
        k = r.choice(list(S) + list(U))
        p, x, vs = program(r, k, r.randint(1, 4))
        progs.append((k, p, x, vs))
        cases.append({"ctx": k, "text": x, "set": [[n, str(v)] for n, v in vs], "j": j})
    for x in c.real(cases):
        k, p, t, vs = progs[x["j"]]
        res = x["res"] if isinstance(x["res"], list) else [{"k": x["res"], "v": []}]
        recs.append({"ctx": k, "kind": "prog", "plain": False, "o": t + " " + str(vs), "args": [p], "outs": [outcome(y) for y in res]})
        c.count("expressions")
    r.shuffle(recs)
    tr = c.path("ints.tr")
    vlib.write_lines(tr, recs)
    _, bad, _ = c.validate("TraceInts", tr)
    c.count("traces_validated_against_impl", len(recs))
    for i, what in bad:
        x, j = recs[i], int(what)
        a = [unbig(v) for v in x["args"][j]] if x["kind"] != "prog" else ""
        got = x["outs"][j]
        c.violation("%s:%s:%s" % (x["ctx"], x["o"], a), "%s: %s%s gives %s %s" % (x["ctx"], x["o"], a, got["k"], unbig(got["v"])), None)
    for x in recs[:6]:
        c.sample({"ctx": x["ctx"], "op": x["o"], "args": [unbig(v) for v in x["args"][0]] if x["kind"] != "prog" else "", "out": [x["outs"][0]["k"], str(unbig(x["outs"][0]["v"]))]})
    c.log("TraceInts: %d records, %d rejected" % (len(recs), len(bad)))
