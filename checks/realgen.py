"""Random texts for the shipped contexts."""
FN1 = "abs sqrt ln log exp floor ceil truncate round sign to_radians to_degrees sin cos tan csc sec cot asin acos atan acsc asec acot sinh cosh tanh csch sech coth asinh acosh atanh acsch asech acoth".split()
FN = {
    "f64": FN1, "i": FN1, "dec": [f for f in FN1 if f not in ("abs", "sign")] + ["cbrt"], "cpx": [f for f in FN1 if f not in "abs floor ceil truncate round sign to_radians to_degrees".split()], "bin": [],
}
INTS = ("i8", "i16", "i32", "i64", "i128", "isize", "ui64")


def fam(ctx):
    return "i" if ctx in INTS else "f64" if ctx in ("f32", "uf64") else ctx


def number(r, ctx):
    f = fam(ctx)
    if f == "bin":
        return r.choice(["b" + "".join(r.choice("01") for _ in range(r.randint(1, r.choice([4, 20, 127])))), str(r.randrange(20)), str(r.randrange(1 << 70))])
    k = r.random()
    if f == "i":
        return str(r.choice([0, 1, 2, 3, 7, 10, 12, 100, 127, 128, 255, 32767, 2 ** 31 - 1, 2 ** 31, 2 ** 63 - 1, 2 ** 127 - 1])) if k < .5 else str(r.randrange(30))
    s = str(r.randrange(30)) if k < .4 else "%d.%d" % (r.randrange(20), r.randrange(1000)) if k < .8 else r.choice(["0", "1", "0.5", "2", "90", "45", "30", "100", "1000000", "0.0001", "79228162514264337593543950335", "0.0000000000000000000000000001"])
    if f == "cpx" and r.random() < .4:
        s += "i"
    return s


def expr(r, ctx, vs, depth=3):
    f = fam(ctx)
    k = r.random()
    if depth == 0 or k < .25:
        if vs and r.random() < .4:
            return r.choice(vs)
        if f != "bin" and r.random() < .08:
            return r.choice(["PI", "e", "pi"] + (["i"] if f == "cpx" else []))
        return number(r, ctx)
    e = lambda: expr(r, ctx, vs, depth - 1)
    if f == "bin":
        if k < .35:
            return r.choice(["~", "not "]) + "(" + e() + ")"
        return "(%s %s %s)" % (e(), r.choice("& | ^ << >> == != < <= > >= and or xor shl shr eq ne lt gt lte gte".split()), e())
    if k < .6:
        return "%s %s %s" % (e(), r.choice(["+", "-", "*", "/", "+", "-", "*", "^", "mod"]), e())
    if k < .7:
        return r.choice(["-", "+"]) + e()
    if k < .76 and f != "cpx":
        return "(" + e() + ")!"
    if k < .85:
        return "(" + e() + ")"
    if k < .9:
        g = r.choice(["sum", "product", "avg"] + ([] if f == "cpx" else ["max", "min"]))
        return "%s(%s)" % (g, ", ".join(e() for _ in range(r.randint(2, 4))))
    return "%s(%s)" % (r.choice(FN[f]), e())


def spoil(r, t):
    k = r.randrange(len(t) + 1)
    c = r.choice(list("()[]{},+-*/^!$.x5 i") + ["é", "", "foo", "\t", "٣"])
    return t[:k] + c + t[k + r.randrange(2):]
