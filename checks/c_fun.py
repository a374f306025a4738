"""P16: the named functions and the floating operators against RealFun."""
import random, struct
from fractions import Fraction
import vlib
from checks.num import big

SCALE = 10 ** 24
TRIG = ["sin", "cos", "tan", "csc", "sec", "cot"]
ARC = ["asin", "acos", "atan", "acsc", "asec", "acot"]
HYP = ["sinh", "cosh", "tanh", "csch", "sech", "coth"]
ARCH = ["asinh", "acosh", "atanh", "acsch", "asech", "acoth"]
ROUND = ["floor", "ceil", "truncate", "round"]
LOGS = ["exp", "ln", "log", "sqrt"]
FAM = {"f64": "f", "uf64": "f", "f32": "s", "dec": "d", "i8": "i", "i32": "i", "i64": "i", "i128": "i", "cpx": "c"}
MAX = {"i8": 127, "i32": 2 ** 31 - 1, "i64": 2 ** 63 - 1, "i128": 2 ** 127 - 1}
HAS = {"f64": TRIG + ARC + HYP + ARCH + LOGS + ROUND + ["sign", "abs", "to_radians", "to_degrees"],
       "uf64": TRIG + ARC + HYP + ARCH + LOGS + ["to_radians", "to_degrees"],
       "dec": TRIG + ARC + HYP + ARCH + LOGS + ROUND + ["cbrt", "to_radians", "to_degrees"]}
HAS["f32"] = HAS["f64"]
INTS = TRIG + HYP[:3] + LOGS + ROUND + ["sign", "abs", "to_radians", "to_degrees"]


def fix(f):
    return big(round(Fraction(f) * SCALE))


def exact(ctx, t):
    """The number a literal stands for in a context."""
    if ctx in ("f64", "uf64", "cpx"):
        return Fraction(float(t))
    if ctx == "f32":
        return Fraction(struct.unpack("f", struct.pack("f", float(t)))[0])
    return Fraction(t)


def value(ctx, t):
    """A printed value; None when it is not finite."""
    return None if "inf" in t or "NaN" in t else exact(ctx, t)


def dec(r, lo, hi, places=None):
    n = r.randint(0, 6) if places is None else places
    q = 10 ** n
    x = r.randint(int(lo * q), int(hi * q))
    s = "%d" % (abs(x) // q) + (".%0*d" % (n, abs(x) % q) if n else "")
    return ("-" if x < 0 else "") + s


def quarter(r, n):
    x = r.randint(-4 * n, 4 * n)
    return ("-" if x < 0 else "") + "%d" % (abs(x) // 4) + ["", ".25", ".5", ".75"][abs(x) % 4]


def beside(r):
    """An angle close to a pole or a zero."""
    n = r.randint(1, 5)
    x = 90 * r.randint(-5, 5) * 10 ** n + r.choice([-1, 1]) * r.randint(1, 9)
    return ("-" if x < 0 else "") + "%d.%0*d" % (abs(x) // 10 ** n, n, abs(x) % 10 ** n)


def args(r, ctx, fn):
    """The arguments of one call, as texts."""
    k = r.random()
    sgn = lambda t: "-" + t if r.random() < .5 and t.strip("0.") else t
    if ctx in MAX:
        top = min(MAX[ctx], 10 ** 15)
        if fn in HYP + ["exp"]:
            return [str(r.randint(-40, 40))]
        if fn in LOGS[1:] and k < .9:
            n = r.choice([r.randint(0, 1000), 10 ** r.randint(0, 12), r.randint(1, top), r.randint(1, 30) ** 2])
            n = str(min(n, top))
            return [n, str(r.choice([2, 3, 10, 0, 1, 7]))] if fn == "log" and k < .4 else [n]
        return [str(r.randint(-min(top, 1000), min(top, 1000)))]
    if fn in TRIG:
        return [r.choice([lambda: str(15 * r.randint(-48, 48)), lambda: str(90 * r.randint(-30, 30)), lambda: quarter(r, 400),
                          lambda: dec(r, -720, 720), lambda: dec(r, -1000000, 1000000), lambda: beside(r)])()]
    if fn in ("asin", "acos"):
        return [r.choice([lambda: dec(r, -1, 1), lambda: quarter(r, 1), lambda: dec(r, -3, 3)])()]
    if fn in ("acsc", "asec"):
        return [r.choice([lambda: sgn(dec(r, 1, 10)), lambda: quarter(r, 3), lambda: sgn(dec(r, 1, 10000)), lambda: sgn(dec(r, 0, 2))])()]
    if fn == "atan" and k < .4:
        return [r.choice([lambda: quarter(r, 3), lambda: dec(r, -50, 50), lambda: "0"])() for _ in range(2)]
    if fn in ("atan", "acot", "asinh", "acsch"):
        return [r.choice([lambda: quarter(r, 4), lambda: dec(r, -10, 10), lambda: dec(r, -10000, 10000, 3)])()]
    if fn in ("acosh", "acoth"):
        return [r.choice([lambda: dec(r, 1, 10), lambda: quarter(r, 3), lambda: sgn(dec(r, 1, 10000, 3)), lambda: dec(r, 0, 2)])()]
    if fn in ("atanh", "asech"):
        return [r.choice([lambda: dec(r, -1, 1, 4), lambda: dec(r, 0, 1, 3), lambda: quarter(r, 2), lambda: dec(r, -3, 3, 2)])()]
    if fn in HYP:
        return [r.choice([lambda: quarter(r, 4), lambda: dec(r, -3, 3, 2), lambda: dec(r, -20, 20, 3)] + ([lambda: dec(r, -45, 45, 2)] if fn in HYP[:3] else []))()]
    if fn == "exp":
        return [r.choice([lambda: quarter(r, 10), lambda: dec(r, -10, 10), lambda: dec(r, -50, 50, 2)])()]
    if fn in ("ln", "sqrt", "log"):
        x = r.choice([lambda: dec(r, 0, 2, 4), lambda: dec(r, 0, 100, 3), lambda: dec(r, 0, 10 ** 12, 2), lambda: quarter(r, 5), lambda: str(10 ** r.randint(0, 12)), lambda: "0.001"])()
        if fn == "log" and k < .5:
            return [x, r.choice([lambda: "2", lambda: "10", lambda: dec(r, 2, 50, 2), lambda: dec(r, 0, .9, 2), lambda: "1", lambda: "0", lambda: dec(r, -5, 0, 1)])()]
        return [x]
    if fn == "cbrt":
        return [r.choice([lambda: quarter(r, 30), lambda: dec(r, -10 ** 9, 10 ** 9, 3), lambda: str(r.randint(-50, 50) ** 3)])()]
    if fn in ROUND + ["sign", "abs"]:
        return [r.choice([lambda: quarter(r, 5), lambda: dec(r, -3, 3, 2), lambda: dec(r, -10 ** 6, 10 ** 6, 3), lambda: "0"])()]
    return [r.choice([lambda: quarter(r, 400), lambda: dec(r, -10, 10), lambda: dec(r, -10 ** 5, 10 ** 5, 3)])()]


def operation(r, ctx):
    """An operator or a function of many arguments in the floating contexts."""
    k = r.random()
    num = lambda: r.choice([lambda: quarter(r, 6), lambda: dec(r, -20, 20, 3), lambda: dec(r, -10 ** 4, 10 ** 4, 2)])()
    if k < .35:
        o = r.choice("+-*/")
        return o, [num(), num()]
    if k < .45:
        return "mod", [quarter(r, 50), quarter(r, 5)]
    if k < .65:
        b, q = r.choice([lambda: (dec(r, .1, 20, 2), quarter(r, 3)), lambda: (quarter(r, 5), str(r.randint(-6, 6))), lambda: (quarter(r, 4), quarter(r, 3)), lambda: (dec(r, 0, 5, 2), dec(r, -3, 3, 2))])()
        return "^", [b, q]
    if k < .7:
        return r.choice(["-u", "+u"]), [num()]
    if k < .8:
        return r.choice(["max", "min"]), [num() for _ in range(r.randint(2, 5) if r.random() < .9 else r.randint(6, 90))]
    if r.random() < .1:
        f = r.choice(["sum", "product", "avg"])
        return f, [quarter(r, 3) if f != "product" else r.choice(["1", "-1", "1", "2", "0.5"]) for _ in range(r.randint(6, 90))]
    return r.choice(["sum", "product", "avg"]), [num() for _ in range(r.randint(1, 5))]


def par(t):
    return "(%s)" % t if t[0] == "-" else t


def show(fn, xs):
    if fn in ("+", "-", "*", "/", "mod", "^"):
        return "%s %s %s" % (par(xs[0]), fn, par(xs[1]))
    if fn in ("-u", "+u"):
        return "%s%s" % (fn[0], par(xs[0]))
    if fn == "!":
        return "(%s)!" % xs[0]
    return fn if fn in ("PI", "E", "i") else "%s(%s)" % (fn, ", ".join(xs))


def factorials(r, ctx, n):
    if ctx in MAX:
        return
    top = {"f64": 40, "uf64": 40, "f32": 25, "dec": 25}[ctx]
    for x in range(0, top + 1):
        yield str(x)
    for _ in range(n):
        yield r.choice([lambda: dec(r, 0, 3), lambda: dec(r, 0, top, 2), lambda: quarter(r, top), lambda: dec(r, -3, 0, 1)])()


def real_cases(c, r):
    """(context, function, arguments)."""
    n = c.pick(60, 600)
    for ctx in ("f64", "dec", "f32", "uf64"):
        m = n if ctx in ("f64", "dec") else n // 2
        for fn in HAS[ctx]:
            for _ in range(m):
                yield ctx, fn, args(r, ctx, fn)
        if ctx != "dec":
            for _ in range(m * 12):
                yield (ctx,) + operation(r, ctx)
        else:
            for _ in range(m * 3):
                yield ctx, "^", [dec(r, .1, 20, 2), quarter(r, 3)]
        for fn in TRIG + ARC + ARCH + LOGS[1:]:
            for x in ("0", "1", "-1", "2", "-2", "0.5", "-0.5", "90", "-90", "180", "270"):
                yield ctx, fn, [x]
        for x in factorials(r, ctx, m):
            yield ctx, "!", [x]
        for k in ("PI", "E"):
            yield ctx, k, []
    for ctx in MAX:
        for fn in INTS:
            for _ in range(n // 3):
                yield ctx, fn, args(r, ctx, fn)
        for _ in range(n * 3):
            yield ctx, "^", [str(r.randint(-12, 12)), str(r.randint(-4, 12))]
    for ctx in ("f64", "uf64"):
        for k in range(41, 172):
            yield ctx, "!", [str(k)]


# a method of the decimals: the function it is, and the function of the language whose arguments it gets
EXT = {"is_integer": ("whole", "round"), "to_radians": ("to_radians",) * 2, "to_degrees": ("to_degrees",) * 2, "checked_to_degrees": ("to_degrees",) * 2,
       "inv": ("inv", "acsc"), "checked_inv": ("inv", "round"), "checked_powd": ("^", "^"), "checked_powi": ("^", "^i"), "checked_sqrt": ("sqrt",) * 2,
       "checked_cbrt": ("cbrt",) * 2, "checked_log": ("log",) * 2, "checked_ln": ("ln",) * 2, "checked_exp": ("exp",) * 2, "checked_factorial": ("!", "!"),
       "checked_sin": ("rsin", "r"), "checked_cos": ("rcos", "r"), "checked_tan": ("rtan", "r"), "checked_cot": ("rcot", "r"), "asin": ("rasin", "asin"),
       "acos": ("racos", "acos"), "atan": ("ratan", "acot"), "atan2": ("ratan", "2"), "sinh": ("sinh",) * 2, "cosh": ("cosh",) * 2, "tanh": ("tanh",) * 2,
       "asinh": ("asinh",) * 2, "acosh": ("acosh",) * 2, "atanh": ("atanh",) * 2}


def ext_cases(c, r):
    """(context, method, function, arguments)."""
    pi = "3.1415926535897932384626433833"

    def angle():
        k = r.randint(-12, 12)
        n = Fraction(pi) * k / r.choice([2, 4, 6, 8])
        n = round(n * 10 ** 20)
        return ("-" if n < 0 else "") + "%d.%020d" % (abs(n) // 10 ** 20, abs(n) % 10 ** 20)
    for m, (fn, like) in sorted(EXT.items()):
        for _ in range(c.pick(60, 600)):
            if like == "r":
                xs = [r.choice([angle, lambda: dec(r, -8, 8), lambda: quarter(r, 30), lambda: dec(r, -1000, 1000, 3)])()]
            elif like == "!":
                xs = [r.choice([lambda: str(r.randint(0, 25)), lambda: dec(r, 0, 3), lambda: quarter(r, 20), lambda: dec(r, -3, 0, 1)])()]
            elif like == "^":
                xs = r.choice([lambda: [dec(r, 0, 20, 2), quarter(r, 3)], lambda: [quarter(r, 5), str(r.randint(-6, 6))], lambda: [quarter(r, 2), quarter(r, 2)]])()
            elif like == "^i":
                xs = [quarter(r, 5), str(r.randint(-8, 12))]
            elif m == "is_integer":
                xs = [r.choice([lambda: quarter(r, 9), lambda: str(r.randint(-10 ** 9, 10 ** 9)), lambda: "%d.%s%d" % (r.randint(-99, 99), "0" * r.randint(0, 22), r.randint(0, 9)), lambda: dec(r, -5, 5)])()]
            elif like == "2":
                xs = [r.choice([lambda: quarter(r, 3), lambda: dec(r, -50, 50), lambda: "0"])() for _ in range(2)]
            else:
                xs = args(r, "dec", like)
                if m == "checked_log" and len(xs) < 2:
                    xs.append("10")
                if m == "inv" and Fraction(xs[0]) == 0:
                    xs = ["8"]
            yield "dec", m, fn, xs
    for _ in range(c.pick(200, 2000)):
        x = r.choice([lambda: dec(r, .1, 20, 2), lambda: dec(r, .01, 1, 3), lambda: quarter(r, 5), lambda: dec(r, -6, 0, 2)])()
        f = Fraction(x)
        if f > 0 or abs(f - round(f)) >= Fraction(1, 100):
            yield "f64", "gamma", "gamma", [x]


CFN = TRIG + ARC + HYP + ARCH + LOGS


def cnum(r, top=4):
    def part():
        t = r.choice([lambda: quarter(r, top), lambda: dec(r, -top, top, 2), lambda: dec(r, -2, 2, 1), lambda: str(r.randint(-2, 2))])()
        return "0" if not t.strip("-0.") else t
    return (part(), "0") if r.random() < .2 else ("0", part()) if r.random() < .2 else (part(), part())


def ctext(z):
    re, im = z
    if im == "0":
        return re
    t = im.lstrip("-") + "i"
    if re == "0":
        return ("-" if im[0] == "-" else "") + t
    return "%s %s %s" % (re, "-" if im[0] == "-" else "+", t)


def complex_cases(c, r):
    for fn in CFN:
        for _ in range(c.pick(80, 800)):
            z = [cnum(r)]
            if fn == "log" and r.random() < .5:
                z.append(r.choice([("2", "0"), ("10", "0"), (dec(r, 2, 20, 1), "0"), ("0.5", "0"), ("1", "0"), ("0", "0"), ("-2", "0"), ("2", "1"), ("0", "2")]))
            yield fn, z
    for _ in range(c.pick(500, 5000)):
        yield "^", [cnum(r, 3), cnum(r, 2)]
    for k in ("PI", "E", "i"):
        yield k, []


def run(c):
    c.build()
    r = random.Random("fun%d" % c.seed)
    c.model("MCFixed", ["Circle", "Sums", "Logs", "Gammas", "Known"], consts={"Grid": c.pick(10, 40), "Den": 4}, spec="Spec")
    cases, recs = [], []
    seen = set()

    def add(ctx, fn, text, x, **kw):
        if (ctx, text) in seen:
            return
        seen.add((ctx, text))
        cases.append({"ctx": ctx, "implicit": False, "texts": [text] + kw.pop("also", []), "i": len(recs)})
        recs.append(dict({"f": FAM[ctx], "fn": fn, "x": x, "k": "", "y": [], "aux": []}, **kw))

    for ctx, fn, xs in real_cases(c, r):
        v = [exact(ctx, t) for t in xs]
        if fn == "^":
            import math
            if v[0] and abs(float(v[1]) * math.log(abs(v[0]))) > (45 if ctx not in MAX else 60) or v[0] < 0 and v[1].denominator > 1 and ctx in MAX:
                continue
        text = show(fn, xs)
        kw = {"aux": fix(MAX[ctx])} if ctx in MAX else {}
        if fn == "!" and v[0] > 40:
            kw = {"also": [show("!", [str(int(xs[0]) - 1)])]}
        if fn == "+u":
            fn, v = "sum", v
        add(ctx, "-" if fn == "-u" else fn, text, [fix(a) for a in v] or [fix(0)], **kw)
    for ctx, m, fn, xs in ext_cases(c, r):
        text = "%s(%s)" % (m, ", ".join(xs))
        if (ctx, ".", text) not in seen:
            seen.add((ctx, ".", text))
            cases.append({"ctx": ctx, "as": "ext", "call": m, "args": [xs], "texts": [text], "i": len(recs)})
            recs.append({"f": FAM[ctx], "fn": fn, "x": [fix(exact(ctx, t)) for t in xs], "k": "", "y": [], "aux": []})
    zero = [fix(0), fix(0)]
    for fn, zs in complex_cases(c, r):
        v = [[fix(exact("cpx", a)), fix(exact("cpx", b))] for a, b in zs] or [zero]
        if fn == "^":
            if zs[0] == ("0", "0"):
                continue
            add("cpx", fn, "(%s)^(%s)" % (ctext(zs[0]), ctext(zs[1])), v, also=["ln(%s)" % ctext(zs[0])])
        else:
            add("cpx", fn, show(fn, [ctext(z) for z in zs]), v)
    shown = {}
    for x in c.real(cases):
        rec, i = recs[x["i"]], x["i"]
        if not isinstance(x["res"], list):
            rec["k"], shown[i] = x["res"], x["res"]
            continue
        out = []
        for y in x["res"]:
            vs = [value(cases[i]["ctx"], t) for t in y["v"]] if y["k"] == "ok" else []
            out.append((y["k"] if None not in vs else "inf", vs))
        k, vs = out[0]
        shown[i] = x["res"][0]["v"] if k != "err" else k
        rec["k"] = k
        if rec["f"] == "c":
            rec["y"] = [fix(a) for a in vs] if k == "ok" else zero
            rec["aux"] = zero
            if len(out) > 1:
                if out[1][0] == "ok":  # (a base that is not zero has a logarithm)
                    rec["aux"] = [fix(a) for a in out[1][1]]
            continue
        scale = 1
        if len(out) > 1:
            if out[1][0] != "ok":
                rec["aux"] = []
            else:
                scale = Fraction(1, 10 ** (len(str(int(out[1][1][0]))) - 1))
                rec["aux"] = [fix(out[1][1][0] * scale)]
        rec["y"] = fix(vs[0] * scale) if k == "ok" else fix(0)
    for rec in recs:
        if rec["k"] == "hang" or rec["k"] == "abort":
            rec["y"] = zero if rec["f"] == "c" else fix(0)
            if rec["f"] == "c" and rec["aux"] == []:
                rec["aux"] = zero
    tr = c.path("fun.tr")
    order = list(range(len(recs)))
    r.shuffle(order)
    vlib.write_lines(tr, [recs[i] for i in order])
    _, bad, _ = c.validate("TraceFun", tr)
    c.count("traces_validated_against_impl", len(recs))
    for j, what in bad:
        i = order[j]
        c.violation("%s: %s" % (cases[i]["ctx"], cases[i]["texts"][0]), "%s: %s gives %s, %s" % (cases[i]["ctx"], cases[i]["texts"][0], shown[i], what), cases[i])
    for i in range(0, len(recs), len(recs) // 6):
        c.sample({"ctx": cases[i]["ctx"], "text": cases[i]["texts"][0], "out": shown[i]})
    for ctx in sorted(FAM):
        c.count("values_" + ctx, sum(x["ctx"] == ctx and "call" not in x for x in cases))
    c.count("direct_calls", sum("call" in x for x in cases))
    c.count("outside_the_domain", sum(x["k"] != "ok" for x in recs))
    c.log("TraceFun: %d records, %d rejected" % (len(recs), len(bad)))
