"""P13: complex literals and arithmetic."""
import json, random
import vlib
from checks.num import frac

Z = {"n": {"s": 0, "m": []}, "d": [1]}


def ins(t, s="", o="", n=0):
    return {"t": t, "s": list(s), "o": o, "n": n}


def literal(r):
    k = r.random()
    n = str(r.choice([0, 1, 2, 3, 5, 10, r.randrange(30), r.randrange(1000)]))
    if k < .25:
        n += r.choice([".5", ".25", ".75", ".0", ".125", ".1"])
    if k > .9:
        return "i"
    return n + r.choice(["", "i"])


def join(r, t):
    """2i may also be written 2 i."""
    return t[:-1] + " i" if len(t) > 1 and t[-1] == "i" and r.random() < .15 else t


def program(r, depth, implicit):
    def go(d):
        c = r.random()
        if d == 0 or c < .15:
            t = literal(r)
            return [ins("lit", t)], join(r, t), 9
        if c < .6:
            (p, x, px), (q, y, py), o = go(d - 1), go(d - 1), r.choice("++--***/")
            lv = 1 if o in "+-" else 2
            # equal precedence to the right needs its parentheses
            x = x if px >= lv and r.random() < .8 else "(%s)" % x
            y = y if py > lv and r.random() < .8 else "(%s)" % y
            return p + q + [ins("bin", o=o)], "%s %s %s" % (x, o, y) if r.random() < .7 or y[0] == "-" else x + o + y, lv
        if c < .68:
            p, x, px = go(d - 1)
            return p + [ins("neg")], "-%s" % x if px == 9 else "-(%s)" % x, 3
        if c < .78:
            p, x, px = go(d - 1)
            n = r.choice([0, 1, 2, 2, 3, 4, -1, -2])
            return p + [ins("pow", n=n)], "%s^%s" % (x if px == 9 else "(%s)" % x, n if n >= 0 else "(-%d)" % -n), 8
        if c < .86 and implicit:
            p, x, px = go(d - 1)
            t = literal(r)
            return [ins("lit", t)] + p + [ins("bin", o="*")], "%s(%s)" % (t, x), 2
        f, n = r.choice(["sum", "product", "avg"]), r.randint(1, 4) if d > 1 or r.random() < .9 else r.randint(5, 20)
        ps = [go(d - 1) for _ in range(n)]
        return [i for p, _, _ in ps for i in p] + [ins("fn", o=f, n=n)], "%s(%s)" % (f, ", ".join(x for _, x, _ in ps)), 9
    p, x, _ = go(depth)
    return p, x


def outcome(x, i=0):
    y = x["res"][i] if isinstance(x["res"], list) else {"k": x["res"], "v": []}
    if y["k"] != "ok":
        return {"k": y["k"], "re": Z, "im": Z}
    re, im = (frac(v) for v in y["v"])
    return {"k": "ok", "re": re, "im": im} if re and im else {"k": "inf", "re": Z, "im": Z}


def shown(x):
    return x["res"][0] if isinstance(x["res"], list) else x["res"]


def run(c):
    c.build()
    r = random.Random("cpx%d" % c.seed)
    c.model("MCCpx", ["Laws", "Unit"], consts={"Max": c.pick(3, 8), "Lits": {"0"}, "Steps": 0, "Emit": False}, env={"VH_OUT": "/dev/null"}, spec="Spec")
    recs, texts, cases = [], [], []
    lits = {"0", "1", "2", "i", "2i", "0.5i", "7", "3.25", "12i", "0i"}
    for steps, ls in ((1, lits), (2, {"2", "i", "0.5i"})) if not c.thorough() else ((2, lits), (3, {"2", "i"})):
        out = c.path("cpx%d" % steps)
        c.model("MCCpx", ["Emitted", "Unit"], consts={"Max": 1, "Lits": ls, "Steps": steps, "Emit": True}, env={"VH_OUT": out}, spec="Spec")
        for l in open(out):
            b = json.loads(json.loads(l))
            st = []
            for i in b["prog"]:
                if i["t"] == "lit":
                    st.append(vlib.text(i["s"]))
                elif i["t"] == "bin":
                    y, x = st.pop(), st.pop()
                    st.append("(%s %s %s)" % (x, i["o"], y))
                elif i["t"] == "neg":
                    st.append("(-%s)" % st.pop())
                elif i["t"] == "pow":
                    st.append("(%s^%s)" % (st.pop(), i["n"] if i["n"] >= 0 else "(-%d)" % -i["n"]))
                else:
                    y, x = st.pop(), st.pop()
                    st.append("%s(%s, %s)" % (i["o"], x, y))
            for t in b["prog"]:
                t["s"] = t["s"] if isinstance(t["s"], list) else []
            recs.append({"prog": b["prog"]})
            cases.append({"ctx": "cpx", "text": st[0]})
    c.count("behaviours_replayed", len(recs))
    for _ in range(c.pick(8000, 80000)):
        imp = r.random() < .3
        p, x = program(r, r.randint(1, 4), imp)
        recs.append({"prog": p})
        cases.append({"ctx": "cpx", "text": x, "implicit": imp})
    # products without a sign
    for _ in range(400):
        a, b = literal(r), literal(r)
        recs.append({"prog": [ins("lit", a), ins("lit", b), ins("bin", o="*")]})
        cases.append({"ctx": "cpx", "text": r.choice(["%s(%s)", "(%s)(%s)", "%s (%s)"]) % (join(r, a), join(r, b)), "implicit": True})
    for i, x in enumerate(cases):
        x["i"] = i
    got = {}
    for x in c.real(cases):
        recs[x["i"]]["out"] = outcome(x)
        got[x["i"]] = shown(x)
    tr = c.path("cpx.tr")
    vlib.write_lines(tr, recs)
    _, bad, _ = c.validate("TraceCpx", tr)
    c.count("traces_validated_against_impl", len(recs))
    for i, what in bad:
        c.violation(cases[i]["text"], "%s gives %s, specified: %s" % (cases[i]["text"], got[i], what), cases[i])
    for i in range(0, len(cases), len(cases) // 6):
        c.sample({"text": cases[i]["text"], "out": got[i]})
    c.count("values", sum(x["out"]["k"] == "ok" for x in recs))
    c.log("TraceCpx: %d records, %d rejected" % (len(recs), len(bad)))
