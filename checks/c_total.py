"""P10: every text is answered by a value or an error, promptly."""
import collections, json, os, random
import vlib
from checks import realgen

CTXS = ["f64", "f32", "i8", "i16", "i32", "i64", "i128", "isize", "dec", "cpx", "bin"]
MAXDEC = "79228162514264337593543950335"
MENUS = {
    "f64": "0 2 170 .5 1e308 (1-3) ( ) , + - * / ^ mod ! PI foo $ sqrt( ln( max( acos( tan(".split(),
    "i": "0 1 3 %MAX (0-5) ( ) , + - * / ^ mod ! PI é avg( ln( max( abs( log( sqrt( product(".split(),
    "dec": ("0 2 28 0.5 %s (0-3.5) 0.0000000000000000000000000001 ( ) , + - * / ^ mod ! PI . sqrt( ln( exp( acos( tan( max(" % MAXDEC).split(),
    "cpx": "0 2 1.5i i 1e200 (0-1) ( ) , + - * / ^ mod PI foo sqrt( ln( log( acos( tan( avg( random(".split(),
    "bin": ("0 b1 b101 %d 127 ( ) , & | ^ ~ << >> == != < b and not shl foo x" % (2 ** 127 - 1)).split(),
}
NUMS = {
    "f64": "0 1 2 0.5 1.5 3.7 10 45 60 90 180 170 171 1e10 1e-10 1e300 1e308 1e-320 inf nan NaN infinity 4503599627370497.5 9007199254740993".split(),
    "dec": ["0", "1", "2", "0.5", "1.5", "3.7", "10", "27", "28", "45", "66", "67", "90", "180", "1000000", "1000000000000000", "7922816251426433759354395033", MAXDEC, "0.0000000000000000000000000001", "0.9999999999999999999999999999",
            "1.0000000000000000000000000001", "79228162514264337593543950336", "1e5", "0.1234567890123456789012345678"],
    "cpx": "0 1 2 0.5 i 2i 1.5i 10 90 1e200 1e308 1e-320 1e308i inf nan 1+i 0.0i 9007199254740993".split(),
    "bin": ["0", "1", "b0", "b1", "b1111", "127", "128", "129", "b" + "1" * 127, str(2 ** 127 - 1), "b" + "1" * 128, "b", "b2", "170141183460469231731687303715884105728", "1.5", "b1.1"],
}


def nums(ctx):
    if realgen.fam(ctx) != "i":
        return NUMS[realgen.fam(ctx)]
    b = {"i8": 8, "i16": 16, "i32": 32, "i64": 64, "isize": 64, "i128": 128}[ctx]
    m = 2 ** (b - 1)
    return [str(x) for x in (0, 1, 2, 3, 5, 6, 20, 21, 33, 34, 45, 90, 100, m - 1, m - 2, m, m // 2, int(m ** .5), int(m ** .5) + 1)] + ["(0-%d)" % (m - 1), "(0-%d-1)" % (m - 1), "(0-1)", "1.5"]


def menu(ctx):
    m = MENUS[realgen.fam(ctx)]
    return [t.replace("%MAX", nums(ctx)[13]) for t in m]


def extremes(r, ctx, n):
    f = realgen.fam(ctx)
    ns, out = nums(ctx), []
    bins = "+ - * / ^ mod".split() if f != "bin" else "& | ^ << >> == != < <= > >= and or xor shl shr eq ne lt gt gte lte equal no_equal".split()
    unas = ["-", "+"] if f != "bin" else ["~", "not "]
    sgn = ["%s", "(0-%s)"] if f not in ("i", "bin") else ["%s"]
    signed = [s % x for x in ns for s in sgn]
    for x in signed:
        for u in unas:
            out.append(u + "(" + x + ")")
        if f not in ("cpx", "bin"):
            out.append("(" + x + ")!")
        for y in signed:
            for b in bins:
                out.append("(%s) %s (%s)" % (x, b, y))
    many = ["sum", "product", "avg", "log", "atan", "random"] + ([] if f == "cpx" else ["max", "min"])
    if f != "bin":
        for fn in realgen.FN[f]:
            for x in signed:
                out.append("%s(%s)" % (fn, x))
            out += [fn + "()", fn + "(1,2)", fn + "(1,2,3)", fn]
        for fn in many:
            for x in signed:
                out.append("%s(%s)" % (fn, x))
                for y in signed:
                    out.append("%s(%s, %s)" % (fn, x, y))
            for _ in range(40):
                out.append("%s(%s)" % (fn, ", ".join(r.choice(signed) for _ in range(r.randint(3, 200)))))
    fns = realgen.FN[f] or ["~"]
    op = bins[0]
    for k in (50, 2000, 20000):
        out += ["(" * k + "1" + ")" * k, "(" * k, ")" * k, (op + "1") * k, "1" + (op + "1") * k, "-" * k + "1", "1" + "!" * k, fns[0] + "(" * 1 + ",".join("1" * 1 for _ in range(k)) + ")",
                "1" * k, "1." + "1" * k, "a" * k, "(1)" * k, " " * k, "".join(r.choice("([{") for _ in range(k)), ("%s(" % fns[0]) * k + "1" + ")" * k, "2^" * k + "2", "~" * k + "b1", "é" * k]
    if f != "bin":
        out += ["9^9^9^9", "9^9^9^9^9!", "2^0.5^0.5^0.5", "99999999999999999999!", "0.5!!", "3!!!!", "0^(0-1)", "0^0", "(0-8)^(1/3)", "1000!", "170!", "171!", "34!", "(1/3)!", "random(1, 0)", "random(0-1)", "1/(1-1)", "exp(exp(exp(10)))",
                "ln(0-1)", "asin(2)", "acosh(0)", "sqrt(0-4)", "1 mod 0", "log(8, 1)", "log(0, 10)", "log(2, 0)"]
    for _ in range(n):
        k = r.random()
        if k < .5:
            t = realgen.expr(r, ctx, ["x", "y"] if r.random() < .3 else [], r.randint(2, 5))
            for _ in range(r.randrange(3)):
                t = realgen.spoil(r, t)
        elif k < .75:
            t = "".join(r.choice(menu(ctx) + ns[:6]) + r.choice(["", "", " "]) for _ in range(r.randint(4, 14)))
        else:
            t = "".join(chr(r.choice([r.randrange(32, 127), r.randrange(128), r.randrange(0x80, 0x2000), r.choice([0x1F600, 0x130, 0xDF, 0x3A3, 0x212A, 0xFEFF, 0x2028, 0x301, 0x10FFFF, 0x663, 0xB2])])) for _ in range(r.randint(1, 24)))
        out.append(t)
    return out


def slowest(c, rs):
    return max([x["ms"] for x in rs] or [0])


def run(c):
    c.build()
    limit = 10
    r = random.Random("total%d" % c.seed)
    cases = []
    for ctx in CTXS:
        mn = menu(ctx)
        mf, out = c.path("menu.json"), c.path("texts")
        if os.path.exists(out):
            os.remove(out)
        json.dump(mn, open(mf, "w"))
        n = c.pick(2, 3) if ctx not in ("f64", "dec", "i8") else c.pick(3, 3)
        st = c.model("MCTotal", ["OneAnswer", "Emitted"], consts={"MaxLen": n}, env={"VH_MENU": mf, "VH_OUT": out}, spec="Spec", properties=["AlwaysAnswered"] if n <= 2 else [])
        pre = [json.loads(json.loads(l)) for l in open(out)]
        want = sum(len(mn) ** k for k in range(n + 1))
        if len(pre) != want:
            raise vlib.ToolError("%d texts of %d" % (len(pre), want))
        for implicit in (True, False):
            for p in pre:
                t = "".join(mn[k - 1] + " " for k in p)
                cases.append({"ctx": ctx, "implicit": implicit, "texts": [t + x for x in mn]})
    c.log("%d batches of texts from the model" % len(cases))
    n0 = len(cases)
    ext = 0
    for ctx in CTXS:
        ts = extremes(r, ctx, c.pick(1500, 60000))
        ext += len(ts)
        for k in range(0, len(ts), 25):
            cases.append({"ctx": ctx, "implicit": r.random() < .5, "texts": ts[k:k + 25]})
    order = list(range(len(cases)))
    r.shuffle(order)
    got = c.real([cases[k] for k in order], limit)
    c.log("%d texts evaluated" % sum(len(x["texts"]) for x in got))
    recs = []
    for x in got:
        if not isinstance(x["res"], list):
            kinds = {x["res"]: 1}
        else:
            kinds = collections.Counter(y["k"] for y in x["res"])
        recs.append({"ctx": x["ctx"], "n": len(x["texts"]), "kinds": sorted([k, v] for k, v in kinds.items()), "ms": x["ms"]})
    tr = c.path("total.tr")
    vlib.write_lines(tr, recs)
    lines, bad, _ = c.validate("TraceTotal", tr, consts={"MaxMs": limit * 1000})
    n = sum(x["n"] for x in recs)
    c.count("texts_evaluated", n)
    c.count("texts_with_a_value", sum(v for x in recs for k, v in x["kinds"] if k == "ok"))
    c.count("traces_validated_against_impl", len(recs))
    for i in sorted(set(i for i, _ in bad)):
        x = got[i]
        singles = c.real([{"ctx": x["ctx"], "implicit": x["implicit"], "texts": [t]} for t in x["texts"]], limit)
        for s in singles:
            k = s["res"] if not isinstance(s["res"], list) else s["res"][0]["k"]
            if k not in ("ok", "err"):
                t = s["texts"][0]
                c.violation("%s:%s" % (x["ctx"], t[:60].replace(" ", "")), "%s: %s ends in a %s" % (x["ctx"], t[:200], k), s["texts"])
        if len(c.violations) > 30:
            break
    if bad and not c.violations:
        c.violation("total", "a batch was not answered: %s" % bad[:5], [got[i]["texts"] for i, _ in bad[:5]])
    for x in got[::max(1, len(got) // 4)]:
        c.sample({"ctx": x["ctx"], "texts": [t[:80] for t in x["texts"][:3]], "answers": [y["k"] for y in x["res"][:3]] if isinstance(x["res"], list) else x["res"]})
    c.log("TraceTotal: %d texts in %d contexts, slowest batch %d ms, %d batches rejected" % (n, len(CTXS), slowest(c, got), len(bad)))
