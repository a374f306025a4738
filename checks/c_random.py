"""P23: the ranges of random."""
import random
from fractions import Fraction
import vlib
from checks.num import big
from checks.c_fun import exact, value, dec, quarter

INT = {"i8": 127, "i16": 2 ** 15 - 1, "i32": 2 ** 31 - 1, "i64": 2 ** 63 - 1, "i128": 2 ** 127 - 1}
CTXS = ["f64", "f32", "uf64", "dec", "cpx"] + list(INT) + ["ui64"]


def bound(r, ctx):
    if ctx in INT or ctx == "ui64":
        top = INT.get(ctx, 2 ** 63 - 1)
        return str(r.choice([lambda: r.randint(-20, 100), lambda: r.randint(-10, 10), lambda: r.randint(-top, top), lambda: top - r.randint(0, 3), lambda: -top, lambda: 0,
                             lambda: (1 << r.randint(1, top.bit_length() - 1)) + r.randint(-1, 1)])())
    big_ = {"dec": "79228162514264337593543950335", "f32": "3" + "0" * 38}.get(ctx, "17" + "0" * 307)
    t = r.choice([lambda: quarter(r, 10), lambda: dec(r, -5, 5), lambda: dec(r, 0, 10 ** 6, 3), lambda: str(r.randint(-1000, 1000)), lambda: "0", lambda: "0." + "0" * r.randint(0, 12) + "123456789012345",
                  lambda: r.choice(["", "-"]) + big_])()
    return "0" if not t.strip("-0.") else t


def run(c):
    c.build()
    r = random.Random("random%d" % c.seed)
    c.model("MCRandom", ["AllInside", "RefusedNever", "Reach"], consts={"Top": c.pick(4, 8), "Raw": c.pick(6, 16), "Unit": 1}, spec="Spec")
    cases = []
    for ctx in CTXS:
        for k in range(c.pick(120, 1500)):
            n = r.choice([0, 1, 1, 2, 2, 2, 2]) if k else 0
            xs, im = [bound(r, ctx) for _ in range(n)], False
            if n == 2 and r.random() < .2:
                xs[1] = xs[0]
            elif n == 2 and r.random() < .5:
                xs.sort(key=Fraction)
            ts = list(xs)
            if ctx == "cpx" and n and r.random() < .1:
                ts[r.randrange(n)] += " + %di" % r.randint(1, 3)
                im = True
            text = "random(%s)" % ", ".join(ts)
            m = r.choice([1, 10, 120, 400])
            cases.append({"ctx": ctx, "texts": [text] * m, "args": xs, "real": not im, "m": m})
    for i, x in enumerate(cases):
        x["i"] = i
    recs = [None] * len(cases)
    for x in c.real(cases):
        ctx = x["ctx"]
        args = [exact(ctx, t) if ctx not in INT else Fraction(t) for t in x["args"]]
        outs = []
        for y in x["res"] if isinstance(x["res"], list) else []:
            vs = [value(ctx, t) for t in y["v"]] if y["k"] == "ok" else []
            outs.append((y["k"] if None not in vs else "inf", vs))
        if not outs:
            outs = [(x["res"], [])]
        d = 1
        for f in args + [f for _, vs in outs for f in vs if f is not None]:
            d = max(d, f.denominator) if ctx != "dec" else 10 ** 30
        whole = ctx in INT or ctx == "ui64"
        recs[x["i"]] = {"args": [big(int(f * d)) for f in args], "real": x["real"], "one": big(d), "least": big(d * 40 if whole else 1),
                        "outs": [{"k": k, "v": [big(int(f * d)) for f in vs] if k == "ok" else []} for k, vs in outs]}
    # a context whose numbers have no fraction draws 0 from [0, 1)
    tr = c.path("random.tr")
    vlib.write_lines(tr, recs)
    _, bad, _ = c.validate("TraceRandom", tr)
    c.count("traces_validated_against_impl", len(recs))
    c.count("draws", sum(len(x["outs"]) for x in recs))
    c.count("refused", sum(x["outs"][0]["k"] == "err" for x in recs))
    for i, what in bad:
        c.violation("%s: %s" % (cases[i]["ctx"], cases[i]["texts"][0]), "%s: %s: %s" % (cases[i]["ctx"], cases[i]["texts"][0][:200], what), {k: v for k, v in cases[i].items() if k != "texts"})
    for i in range(0, len(cases), len(cases) // 6):
        c.sample({"ctx": cases[i]["ctx"], "text": cases[i]["texts"][0][:80], "draws": cases[i]["m"], "k": recs[i]["outs"][0]["k"]})
    c.log("TraceRandom: %d calls, %d draws, %d rejected" % (len(recs), c.cov["draws"], len(bad)))
