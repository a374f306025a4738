"""P09 (purity in the shipped contexts)."""
import random
import vlib
from checks import realgen

CTXS = ["f64", "f32", "i8", "i32", "i64", "i128", "dec", "cpx", "bin", "uf64"]


def histories(r, n, length):
    hs = []
    for _ in range(n):
        ctx = r.choice(CTXS)
        names = r.sample(["x", "y", "X", "z9", "PI", "pi", "_v", "b1"], 4)
        h, texts = [], []
        for _ in range(length):
            k = r.random()
            if k < .25:
                v = realgen.number(r, ctx)
                h.append(["set", r.choice(names), v])
            else:
                if texts and k < .65:
                    t = r.choice(texts)
                else:
                    t = realgen.expr(r, ctx, names, r.randint(1, 3))
                    if r.random() < .2:
                        t = realgen.spoil(r, t)
                    texts.append(t)
                h.append(["eval", t])
        hs.append({"ctx": ctx, "implicit": r.random() < .5, "history": h})
    return hs


def purity(c):
    r = random.Random("purity%d" % c.seed)
    hs = c.real(histories(r, c.pick(300, 6000), 40))
    fresh, at = [], []
    for k, h in enumerate(hs):
        if not isinstance(h["res"], list):
            c.violation("purity", "the history %s ends in a %s" % (h["history"], h["res"]), h)
            continue
        vs = {}
        for j, (o, res) in enumerate(zip(h["history"], h["res"])):
            if o[0] == "set":
                if res == "ok":
                    vs[o[1]] = o[2]
            elif r.random() < .5:
                fresh.append({"ctx": h["ctx"], "implicit": h["implicit"], "set": [[a, b] for a, b in vs.items()], "text": o[1], "at": [k, j]})
    got = {}
    for f in c.real(fresh):
        got[tuple(f["at"])] = f
    recs = []
    enc = lambda s: "".join(vlib.chars(s))
    res = lambda x: {"k": x["k"], "v": x["v"], "e": x["e"]} if isinstance(x, dict) else {"k": x, "v": [], "e": ""}
    for k, h in enumerate(hs):
        if not isinstance(h["res"], list):
            continue
        recs.append({"op": "new", "ctx": h["ctx"]})
        for j, (o, x) in enumerate(zip(h["history"], h["res"])):
            if o[0] == "set":
                recs.append({"op": "set", "name": enc(o[1]), "v": enc(o[2]), "res": "err" if x == "bad" else x})
                continue
            recs.append({"op": "eval", "text": enc(o[1]), "res": res(x)})
            f = got.get((k, j))
            if f:
                y = f["res"][0] if isinstance(f["res"], list) else f["res"]
                recs.append({"op": "fresh", "text": enc(o[1]), "set": [[enc(a), enc(b)] for a, b in f["set"]], "res": res(y)})
    tr = c.path("real.tr")
    vlib.write_lines(tr, recs)
    lines, bad, _ = c.validate("TraceReal", tr, invariants=("OneValueEach",), groups=lambda l: '"op": "new"' in l)
    n = sum(x["op"] != "new" for x in recs)
    c.count("traces_validated_against_impl", len(hs))
    c.count("numeric_operations", n)
    for i, what in bad:
        s = max(j for j in range(i + 1) if recs[j]["op"] == "new")
        c.violation("purity", "%s: %s gives %s, but %s" % (recs[s]["ctx"], recs[i].get("text"), recs[i]["res"], what), recs[s:i + 1])
    c.log("TraceReal: %d histories, %d operations in the shipped contexts, %d rejected" % (len(hs), n, len(bad)))
